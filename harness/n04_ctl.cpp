// N04: control functions of the application (n04_app.cpp) for the driver.
#include <dlfcn.h>
#include <node_api.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>

static void *Lib;
static long (*Live)();
static void (*Script)(const char *);
static void (*Reset)();
static const char *(*Take)(size_t *);

static napi_value open(napi_env E, napi_callback_info I) {
  size_t N = 1, L;
  napi_value A[1], R;
  char Path[4096];
  napi_get_cb_info(E, I, &N, A, nullptr, nullptr);
  napi_get_value_string_utf8(E, A[0], Path, sizeof(Path), &L);
  Lib = dlopen(Path, RTLD_NOW | RTLD_NOLOAD);
  if (!Lib) {
    fprintf(stderr, "%s\n", dlerror());
    _Exit(99);
  }
  Live = reinterpret_cast<long (*)()>(dlsym(Lib, "n04_live"));
  Script = reinterpret_cast<void (*)(const char *)>(dlsym(Lib, "n04_script"));
  Reset = reinterpret_cast<void (*)()>(dlsym(Lib, "n04_reset"));
  Take = reinterpret_cast<const char *(*)(size_t *)>(dlsym(Lib, "n04_take"));
  napi_get_undefined(E, &R);
  return R;
}

static napi_value live(napi_env E, napi_callback_info) {
  napi_value R;
  napi_create_int64(E, Live(), &R);
  return R;
}

static napi_value script(napi_env E, napi_callback_info I) {
  size_t N = 1, L;
  napi_value A[1], R;
  char Text[4096];
  napi_get_cb_info(E, I, &N, A, nullptr, nullptr);
  napi_get_value_string_utf8(E, A[0], Text, sizeof(Text), &L);
  Script(Text);
  napi_get_undefined(E, &R);
  return R;
}

static napi_value reset(napi_env E, napi_callback_info) {
  Reset();
  napi_value R;
  napi_get_undefined(E, &R);
  return R;
}

static napi_value take(napi_env E, napi_callback_info) {
  size_t N;
  const char *P = Take(&N);
  napi_value R;
  void *D;
  napi_create_buffer_copy(E, N, P ? P : "", &D, &R);
  return R;
}

NAPI_MODULE_INIT() {
  struct { const char *Name; napi_callback F; } Fs[] = {
    {"open", open}, {"live", live}, {"script", script}, {"reset", reset},
    {"take", take}};
  for (auto &F : Fs) {
    napi_value V;
    napi_create_function(env, F.Name, NAPI_AUTO_LENGTH, F.F, nullptr, &V);
    napi_set_named_property(env, exports, F.Name, V);
  }
  return exports;
}
