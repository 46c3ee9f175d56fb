#include "spvm_native.h"
static void (*cb)(int);
int32_t SPVM__VObj__hook(SPVM_ENV* env, SPVM_VALUE* stack) { cb = (void (*)(int))(intptr_t)stack[0].lval; return 0; }
int32_t SPVM__VObj__DESTROY(SPVM_ENV* env, SPVM_VALUE* stack) {
  int32_t e = 0; int id = env->get_field_int_by_name(env, stack, stack[0].oval, "id", &e, __func__, __FILE__, __LINE__);
  if (cb) cb(id);
  return 0;
}
