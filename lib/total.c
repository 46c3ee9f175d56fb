/* Compiles sources given on the standard input, each in a process of its own: "length\nbytes" ...; prints one line per source:
   A (accepted), R n (rejected, with n messages), X status (anything else), T (no answer).  argv[1]: a file for the output of the process, argv[2..]: class search directories. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include "spvm_native.h"
int main(int argc, char** argv) {
  long n;
  while (scanf("%ld", &n) == 1) {
    getchar();
    char* src = calloc(1, n + 1);
    if (fread(src, 1, n, stdin) != (size_t)n) return 3;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      int fd = open(argv[1], O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1);
      alarm(20);
      SPVM_ENV* env = SPVM_NATIVE_new_env();
      void* c = env->api->compiler->new_instance();
      for (int i = 2; i < argc; i++) env->api->compiler->add_include_dir(c, argv[i]);
      env->api->compiler->set_start_file(c, "start"); env->api->compiler->set_start_line(c, 1);
      env->api->compiler->add_class_file(c, "Q");
      void* f = env->api->compiler->get_class_file(c, "Q");
      env->api->class_file->set_rel_file(c, f, "Q.spvm");
      env->api->class_file->set_content(c, f, src); env->api->class_file->set_content_length(c, f, n);
      int e = env->api->compiler->compile(c, "Q");
      int m = env->api->compiler->get_error_messages_length(c);
      for (int i = 0; i < m; i++) if (!env->api->compiler->get_error_message(c, i)) _exit(97);
      if (NULL) for (int i = 0; i < m; i++) fprintf(stderr, "%s\n", env->api->compiler->get_error_message(c, i)); if (e) { env->api->compiler->free_instance(c); _exit(m > 50 ? 60 : 10 + m); }
      _exit(m ? 98 : 0);
    }
    int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) printf("T\n");
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) printf("A\n");
    else if (WIFEXITED(st) && WEXITSTATUS(st) >= 10 && WEXITSTATUS(st) <= 60) printf("R %d\n", WEXITSTATUS(st) - 10);
    else {
      printf("X %d ", st);
      FILE* o = fopen(argv[1], "r"); int ch, k = 0;
      while (o && k < 1500 && (ch = fgetc(o)) != EOF) { putchar(ch == '\n' ? ' ' : ch); k++; }
      if (o) fclose(o);
      printf("\n");
    }
    free(src);
  }
  return 0;
}
