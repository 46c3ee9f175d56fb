# Replays histories of Compiler.tla: writes class files, compiles at run time, and looks at every class after every operation.
use strict; use warnings; use JSON::PP; use File::Path 'remove_tree';
use SPVM (); use SPVM::Builder::Native::Compiler; use SPVM::ExchangeAPI;
SPVM::api();
my ($dir, $file) = @ARGV; my $js = JSON::PP->new->canonical; $| = 1;
open my $fh, "<", $file or die;
while (my $l = <$fh>) {
  my ($id, $classes, $ops) = @{$js->decode($l)};
  my $d = "$dir/h$id"; mkdir $d or die "$d: $!";
  my $c = SPVM::Builder::Native::Compiler->new; $c->add_include_dir($d);
  $c->set_start_file("start.pl"); $c->set_start_line(77); $c->compile(undef);
  my $rt = $c->get_runtime; my $env = $rt->get_env; my $stack = $env->new_stack;
  my $api = SPVM::ExchangeAPI->new(env => $env, stack => $stack);
  my $base = $rt->get_basic_types_length; my (@anon, @out);
  my $see = sub { my ($n, $nu) = @_; my %r; eval {
    %r = (v => $api->call_method($n, "n"), p => $api->call_method($n, "par"), u => [map { $api->call_method($n, "u$_") } 1 .. $nu], q => $api->call_method($n, "rq"), g => $api->call_method($n, "get"),
      s => join("|", map { unpack "H*", "$_" } @{$api->call_method($n, "s")->to_strings}, $api->call_method($n, "am"))); 1 } or %r = (x => substr("$@", 0, 300)); \%r };
  my %nu;
  for my $o (@$ops) {
    my ($ok, $msg) = (1, "");
    my $k = $o->{o};
    if ($k eq "write") { open my $w, ">", "$d/$o->{c}.spvm" or die; binmode $w; print $w pack "H*", $o->{src}; close $w }
    elsif ($k eq "rm") { unlink "$d/$o->{c}.spvm" }
    elsif ($k eq "comp") { $c->set_start_file("start.pl"); $c->set_start_line(77); eval { $c->compile($o->{c}); 1 } or ($ok, $msg) = (0, join "\n", @{$c->get_error_messages}) }
    elsif ($k eq "anon") { my $n; if (eval { $n = $c->compile_anon_class(pack "H*", $o->{src}); 1 }) { push @anon, [$n, $o->{nu}] } else { ($ok, $msg) = (0, join "\n", @{$c->get_error_messages}) } }
    elsif ($k eq "init") { eval { $env->call_init_methods($stack); 1 } or ($ok, $msg) = (0, "$@") }
    elsif ($k eq "set") { eval { $api->call_method($o->{c}, "set", $o->{n}); 1 } or ($ok, $msg) = (0, "$@") }
    my %l; my $nl = @anon;
    for my $n (@$classes) { my $bt = eval { $rt->get_basic_type_by_name($n) }; if ($bt) { $nl++; my $m = eval { $api->call_method($n, "nu") }; $l{$n} = [$see->($n, $m // 0)] } else { $l{$n} = [] } }
    push @out, { ok => $ok, msg => $msg, l => \%l, a => [map { $see->(@$_) } @anon], extra => $rt->get_basic_types_length - $base - $nl };
  }
  $env->destroy_class_vars($stack);
  print "$id ", $js->encode(\@out), "\n";
  remove_tree($d);
}
print "DONE\n";
