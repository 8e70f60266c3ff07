// Harness primitives as JNI natives, for replaying recorded runs on a real Java VM.
#include <jni.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static unsigned long long in_[4096]; static int nin, pos, failed;
static unsigned long long next() { if (pos >= nin) { printf("INPUT-UNDERRUN\n"); fflush(stdout); _exit(45); } return in_[pos++]; }
#define N(R, F, ...) extern "C" JNIEXPORT R JNICALL Java_vp_V_##F(JNIEnv *e, jclass, ##__VA_ARGS__)
N(jbyte, i8) { return next(); }
N(jshort, i16) { return next(); }
N(jchar, c16) { return next(); }
N(jint, i32) { return next(); }
N(jlong, i64) { return next(); }
N(jboolean, bool) { return next() != 0; }
N(jfloat, f32) { unsigned x = next(); float f; memcpy(&f, &x, 4); return f; }
N(jdouble, f64) { unsigned long long x = next(); double f; memcpy(&f, &x, 8); return f; }
N(jint, pick, jint) { return next(); }
N(void, assume, jboolean c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); } }
N(void, chk, jboolean c) { if (!c && !failed) { failed = 1; printf("CHK-FAIL\n"); fflush(stdout); } }
N(void, obs, jlong x) { printf("OBS %llu\n", (unsigned long long)x); fflush(stdout); }
N(void, expectAbort) { printf("EXPECT-ABORT\n"); fflush(stdout); }
N(void, gc, jobject o) { if (!o) return; jclass c = e->GetObjectClass(o); e->CallVoidMethod(o, e->GetMethodID(c, "finalize", "()V")); e->ExceptionClear(); }
N(void, temp, jobject) { }
extern "C" jint JNI_OnLoad(JavaVM *, void *) __attribute__((weak)); extern "C" void JNI_OnUnload(JavaVM *, void *) __attribute__((weak));
N(void, reload) { JavaVM *v; e->GetJavaVM(&v); JNI_OnUnload(v, 0); JNI_OnLoad(v, 0); }
N(jstring, str, jint n) { jchar b[64]; for (int i = 0; i < n; i++) b[i] = next(); return e->NewString(b, n); }
extern "C" JNIEXPORT void JNICALL Java_vp_RealMain_begin(JNIEnv *e, jclass, jlongArray a) { nin = e->GetArrayLength(a); e->GetLongArrayRegion(a, 0, nin, (jlong *)in_); pos = 0; failed = 0; }
extern "C" JNIEXPORT jlong JNICALL Java_vp_RealMain_end(JNIEnv *, jclass) { return failed; }
extern "C" void *vp_ralloc(size_t n, size_t a) { return a > 16 ? aligned_alloc(a, (n + a - 1) / a * a) : malloc(n ? n : 1); }
extern "C" void vp_rdealloc(void *p, size_t, size_t) { free(p); }
extern "C" void vp_detached(int) { }
