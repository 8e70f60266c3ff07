// Model of a Java VM: object layout, references and the JNI environment (executed symbolically and natively).
#pragma once
#include <jni.h>
#include <stddef.h>
#include <new>
#include "vh.h"
struct Cls;
struct Obj { Cls *cls; int32_t mon; int32_t fin; Obj *next; };
struct Arr : Obj { int32_t len; int32_t pad; int64_t d[0]; };
struct Str : Obj { int32_t len; int32_t pad; uint16_t c[0]; };
union JV { int32_t i; int64_t j; float f; double d; Obj *l; };
struct Mth { const char *name; int nlen; const char *sig; int slen; Cls *cls; int flags; void (*inv)(Obj *, const JV *, JV *); int sel; };
struct Fld { const char *name; int nlen; const char *sig; int slen; Cls *cls; int flags; long off; void *addr; };
struct Cls { const char *name; int nlen; Cls *super; Cls **ifs; int nifs; Mth *m; int nm; Fld *f; int nf; unsigned long size; int state; void (*init)(); char elem; Cls *ecls; int id; Obj *mirror; int flags; };
struct Ref { Obj *o; int32_t kind; int32_t magic; Ref *prev, *next; };      // kind 1 local, 2 global
struct Frame { Frame *up; Ref *head; int32_t n; int32_t pushed; };
struct Pin { Pin *next; Obj *o; void *p; int kind; };
extern Obj *jvm_exc;
extern JNIEnv jvm_env;
extern Cls *jvm_classes[]; extern int jvm_nclasses;
[[noreturn]] void jvm_fail(const char *what);
Obj *jvm_new(Cls *c);
Obj *jvm_newarr(Cls *c, int32_t n);
Obj *jvm_newstr(const uint16_t *p, int32_t n);
Obj *jvm_lit(Obj **slot, const uint16_t *p, int32_t n);
Obj *jvm_mirror(Cls *c);
Obj *jvm_clone(Obj *o);
bool jvm_inst(Obj *o, Cls *c);
bool jvm_sub(Cls *a, Cls *c);
void jvm_throw(Cls *c);
void jvm_init(Cls *c);
jobject jvm_local(Obj *o);
void jvm_enter(Frame *f);
Obj *jvm_leave(Frame *f, jobject r);
void jvm_unreach(Obj *o);
void jvm_run(void (*f)());
int32_t jvm_f2i(double d); int64_t jvm_f2l(double d);
static inline float jvm_f32(uint32_t x) { float f; __builtin_memcpy(&f, &x, 4); return f; }
static inline double jvm_f64(uint64_t x) { double f; __builtin_memcpy(&f, &x, 8); return f; }
struct Mon { Obj *o; Mon(Obj *p) : o(p) { o->mon++; } ~Mon() { o->mon--; } };
extern Cls C_java_2f_lang_2f_String, C_java_2f_lang_2f_Object, C_java_2f_lang_2f_Class, C_java_2f_lang_2f_Throwable,
    C_java_2f_lang_2f_NoSuchMethodError, C_java_2f_lang_2f_NoSuchFieldError, C_java_2f_lang_2f_NoClassDefFoundError, C_java_2f_lang_2f_InstantiationException,
    C_java_2f_lang_2f_ArrayIndexOutOfBoundsException, C_java_2f_lang_2f_ArrayStoreException, C_java_2f_lang_2f_StringIndexOutOfBoundsException;
