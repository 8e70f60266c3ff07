// The modelled Java VM: heap, references, JNI environment.  Misuse by native code is an assertion failure.
#include "jvm.h"
#include <stdarg.h>
#include <string.h>
#define API extern "C"
Obj *jvm_exc;
static Obj *heap;
static Frame *cur;
static Ref *globals;
static Pin *pins;
static int detached, attached, nenter;
static Frame attach_frame;
static const int32_t MAGIC = 0x52454631;
void jvm_fail(const char *what) { v_chk(0, what); __builtin_trap(); }
static void need(bool c, const char *what) { if (!c) jvm_fail(what); }
static Obj *alloc(Cls *c, unsigned long n) {
    Obj *o = (Obj *)operator new(n); memset((void *)o, 0, n); o->cls = c; o->next = heap; heap = o; return o; }
struct Mirror : Obj { Cls *of; };
bool jvm_sub(Cls *a, Cls *c) {
    for (Cls *x = a; x; x = x->super) {
        if (x == c) return true;
        for (int i = 0; i < x->nifs; i++) if (jvm_sub(x->ifs[i], c)) return true;
    }
    if (a->elem == 'L' && c->elem == 'L' && a->ecls && c->ecls) return jvm_sub(a->ecls, c->ecls);
    return false; }
bool jvm_inst(Obj *o, Cls *c) { return jvm_sub(o->cls, c); }
void jvm_init(Cls *c) { if (c->state) return; c->state = 1; if (c->super) jvm_init(c->super); if (c->init) c->init(); }
Obj *jvm_new(Cls *c) { return alloc(c, c->size); }
static int esize(char e) { switch (e) { case 'Z': case 'B': return 1; case 'C': case 'S': return 2; case 'I': case 'F': return 4; default: return 8; } }
Obj *jvm_newarr(Cls *c, int32_t n) { Arr *a = (Arr *)alloc(c, sizeof(Arr) + (unsigned long)n * esize(c->elem)); a->len = n; return a; }
Obj *jvm_newstr(const uint16_t *p, int32_t n) {
    Str *s = (Str *)alloc(&C_java_2f_lang_2f_String, sizeof(Str) + 2ul * n); s->len = n; if (n) memcpy(s->c, p, 2ul * n); return s; }
Obj *jvm_lit(Obj **slot, const uint16_t *p, int32_t n) { if (!*slot) *slot = jvm_newstr(p, n); return *slot; }
Obj *jvm_mirror(Cls *c) { if (!c->mirror) { Mirror *m = (Mirror *)alloc(&C_java_2f_lang_2f_Class, sizeof(Mirror)); m->of = c; c->mirror = m; } return c->mirror; }
Obj *jvm_clone(Obj *o) {
    need(o->cls->elem != 0, "clone of a non-array object"); Arr *a = (Arr *)o, *b = (Arr *)jvm_newarr(o->cls, a->len); memcpy(b->d, a->d, (unsigned long)a->len * esize(o->cls->elem)); return b; }
static Mth *find(Cls *c, const char *n, int nl, const char *s, int sl) {
    for (Cls *x = c; x; x = x->super) {
        for (int i = 0; i < x->nm; i++) { Mth *m = &x->m[i]; if (m->nlen == nl && m->slen == sl && !memcmp(m->name, n, nl) && !memcmp(m->sig, s, sl)) return m; }
        for (int i = 0; i < x->nifs; i++) { Mth *m = find(x->ifs[i], n, nl, s, sl); if (m) return m; }
    }
    return 0; }
void jvm_throw(Cls *c) {
    Obj *o = jvm_new(c); Mth *m = find(c, "<init>", 6, "()V", 3); jvm_exc = 0; if (m) { JV r; m->inv(o, 0, &r); } jvm_exc = o; }
int32_t jvm_f2i(double d) { if (d != d) return 0; if (d >= 2147483647.0) return 2147483647; if (d <= -2147483648.0) return -2147483647 - 1; return (int32_t)d; }
int64_t jvm_f2l(double d) { if (d != d) return 0; if (d >= 9223372036854775807.0) return 9223372036854775807ll; if (d <= -9223372036854775808.0) return -9223372036854775807ll - 1; return (int64_t)d; }
// ---------------------------------------------------------------- references
static Ref *mkref(Obj *o, int kind, Ref **head) { Ref *r = (Ref *)operator new(sizeof(Ref)); r->o = o; r->kind = kind; r->magic = MAGIC; r->prev = 0; r->next = *head; if (*head) (*head)->prev = r; *head = r; return r; }
static void rmref(Ref *r, Ref **head) { if (r->prev) r->prev->next = r->next; else *head = r->next; if (r->next) r->next->prev = r->prev; r->magic = 0; operator delete(r); }
jobject jvm_local(Obj *o) {
    if (!o) return 0;
    need(cur != 0, "local reference outside of a native call");
    cur->n++; need(cur->n <= 24, "native call piles up local references (more than the VM guarantees)");
    return (jobject)mkref(o, 1, &cur->head); }
void jvm_enter(Frame *f) { f->up = cur; f->head = 0; f->n = 0; f->pushed = 0; cur = f; }
static Obj *deref(jobject r) { if (!r) return 0; Ref *x = (Ref *)r; need(x->magic == MAGIC, "invalid JNI reference"); return x->o; }
static void drop_frame(Frame *f) { need(cur == f, "local frames are not popped in order"); while (f->head) rmref(f->head, &f->head); cur = f->up; }
Obj *jvm_leave(Frame *f, jobject r) {
    Obj *o = jvm_exc ? 0 : deref(r);
    need(!detached || attached, "native call returns on a detached thread");
    drop_frame(f);
    if (!cur) need(pins == 0, "array or string buffer is not released at the end of the call");
    return o; }
static Obj *nonnull(jobject r, const char *w) { Obj *o = deref(r); need(o != 0, w); return o; }
static Cls *cls(jobject r) { Obj *o = nonnull(r, "null class passed to the JNI environment"); need(o->cls == &C_java_2f_lang_2f_Class, "not a class"); return ((Mirror *)o)->of; }
static void enter(bool pending_ok, const char *w) {
    need(!detached || attached, "JNI environment used on a detached thread");
    need(pending_ok || !jvm_exc, w); }
#define ENTER(n) enter(false, n ": called while an exception is pending")
#define ENTER_P() enter(true, "")
// ---------------------------------------------------------------- strings
static int mutf8_len(const char *p) { return (int)strlen(p); }
static Obj *from_mutf8(const char *p) {
    int n = mutf8_len(p); uint16_t *b = (uint16_t *)operator new(2ul * n + 2); int k = 0;
    for (int i = 0; i < n;) {
        unsigned char c = p[i];
        if (c < 0x80) { b[k++] = c; i++; }
        else if ((c & 0xe0) == 0xc0) { b[k++] = (c & 0x1f) << 6 | ((unsigned char)p[i + 1] & 0x3f); need(b[k - 1] == 0 || b[k - 1] >= 0x80, "text is not modified UTF-8 (overlong)"); i += 2; }
        else if ((c & 0xf0) == 0xe0) { b[k++] = (c & 0xf) << 12 | ((unsigned char)p[i + 1] & 0x3f) << 6 | ((unsigned char)p[i + 2] & 0x3f); need(b[k - 1] >= 0x800, "text is not modified UTF-8 (overlong)"); i += 3; }
        else { b[k++] = c; i++; }       // not modified UTF-8
    }
    Obj *o = jvm_newstr(b, k); operator delete(b); return o; }
static int enc_len(Str *s) { int n = 0; for (int i = 0; i < s->len; i++) n += s->c[i] == 0 ? 2 : s->c[i] < 0x80 ? 1 : s->c[i] < 0x800 ? 2 : 3; return n; }
static void enc(Str *s, int from, int len, char *p) {
    for (int i = from; i < from + len; i++) { uint16_t c = s->c[i];
        if (c && c < 0x80) *p++ = c; else if (c < 0x800) { *p++ = 0xc0 | c >> 6; *p++ = 0x80 | (c & 0x3f); } else { *p++ = 0xe0 | c >> 12; *p++ = 0x80 | (c >> 6 & 0x3f); *p++ = 0x80 | (c & 0x3f); } } }
static Str *str(jobject r) { Obj *o = nonnull(r, "null string passed to the JNI environment"); need(o->cls == &C_java_2f_lang_2f_String, "not a string"); return (Str *)o; }
static void pin(Obj *o, void *p, int kind) { Pin *x = (Pin *)operator new(sizeof(Pin)); x->o = o; x->p = p; x->kind = kind; x->next = pins; pins = x; }
static void unpin(Obj *o, const void *p, int kind, bool keep) {
    for (Pin **x = &pins; *x; x = &(*x)->next) if ((*x)->p == p && (*x)->kind == kind) {
        need((*x)->o == o, "buffer released for another object");
        if (!keep) { Pin *y = *x; *x = y->next; operator delete(y->p); operator delete(y); }
        return; }
    jvm_fail("buffer released that is not held (double or invalid release)"); }
static jstring J_NewString(JNIEnv *, const jchar *p, jsize n) { ENTER("NewString"); need(n >= 0, "NewString: negative length"); return (jstring)jvm_local(jvm_newstr(p, n)); }
static jsize J_GetStringLength(JNIEnv *, jstring s) { ENTER("GetStringLength"); return str(s)->len; }
static const jchar *J_GetStringChars(JNIEnv *, jstring s, jboolean *c) {
    ENTER("GetStringChars"); Str *o = str(s); jchar *p = (jchar *)operator new(2ul * o->len); if (o->len) memcpy(p, o->c, 2ul * o->len); if (c) *c = 1; pin(o, p, 1); return p; }
static void J_ReleaseStringChars(JNIEnv *, jstring s, const jchar *p) { ENTER_P(); unpin(str(s), p, 1, false); }
static jstring J_NewStringUTF(JNIEnv *, const char *p) { ENTER("NewStringUTF"); return (jstring)jvm_local(from_mutf8(p)); }
static jsize J_GetStringUTFLength(JNIEnv *, jstring s) { ENTER("GetStringUTFLength"); return enc_len(str(s)); }
static const char *J_GetStringUTFChars(JNIEnv *, jstring s, jboolean *c) {
    ENTER("GetStringUTFChars"); Str *o = str(s); int n = enc_len(o); char *p = (char *)operator new(n + 1); enc(o, 0, o->len, p); p[n] = 0; if (c) *c = 1; pin(o, p, 2); return p; }
static void J_ReleaseStringUTFChars(JNIEnv *, jstring s, const char *p) { ENTER_P(); unpin(str(s), p, 2, false); }
static void J_GetStringRegion(JNIEnv *, jstring s, jsize a, jsize n, jchar *b) {
    ENTER("GetStringRegion"); Str *o = str(s); if (a < 0 || n < 0 || a + n > o->len) { jvm_throw(&C_java_2f_lang_2f_StringIndexOutOfBoundsException); return; } if (n) memcpy(b, o->c + a, 2ul * n); }
// ---------------------------------------------------------------- classes and members
static jint J_GetVersion(JNIEnv *) { ENTER("GetVersion"); return JNI_VERSION_10; }
static jclass J_FindClass(JNIEnv *, const char *n) {
    ENTER("FindClass"); int l = (int)strlen(n);
    for (int i = 0; i < jvm_nclasses; i++) { Cls *c = jvm_classes[i]; if (c->nlen == l && !memcmp(c->name, n, l)) { jvm_init(c); return (jclass)jvm_local(jvm_mirror(c)); } }
    jvm_throw(&C_java_2f_lang_2f_NoClassDefFoundError); return 0; }
static jclass J_GetObjectClass(JNIEnv *, jobject o) { ENTER("GetObjectClass"); return (jclass)jvm_local(jvm_mirror(nonnull(o, "GetObjectClass(null)")->cls)); }
static jclass J_GetSuperclass(JNIEnv *, jclass k) { ENTER("GetSuperclass"); Cls *c = cls(k); return c->super && !(c->flags & 0x200) ? (jclass)jvm_local(jvm_mirror(c->super)) : 0; }
static jboolean J_IsInstanceOf(JNIEnv *, jobject o, jclass k) { ENTER("IsInstanceOf"); Obj *x = deref(o); Cls *c = cls(k); return !x || jvm_inst(x, c); }
static jboolean J_IsAssignableFrom(JNIEnv *, jclass a, jclass b) { ENTER("IsAssignableFrom"); return jvm_sub(cls(a), cls(b)); }
static jboolean J_IsSameObject(JNIEnv *, jobject a, jobject b) { ENTER("IsSameObject"); return deref(a) == deref(b); }
static jmethodID member(jclass k, const char *n, const char *s, bool st) {
    Cls *c = cls(k); jvm_init(c); Mth *m = find(c, n, (int)strlen(n), s, (int)strlen(s));
    if (m && ((m->flags & 8) != 0) == st) return (jmethodID)m;
    jvm_throw(&C_java_2f_lang_2f_NoSuchMethodError); return 0; }
static jmethodID J_GetMethodID(JNIEnv *, jclass k, const char *n, const char *s) { ENTER("GetMethodID"); return member(k, n, s, false); }
static jmethodID J_GetStaticMethodID(JNIEnv *, jclass k, const char *n, const char *s) { ENTER("GetStaticMethodID"); return member(k, n, s, true); }
static jfieldID field(jclass k, const char *n, const char *s, bool st) {
    Cls *c = cls(k); jvm_init(c); int nl = (int)strlen(n), sl = (int)strlen(s);
    for (Cls *x = c; x; x = x->super) for (int i = 0; i < x->nf; i++) { Fld *f = &x->f[i];
        if (f->nlen == nl && f->slen == sl && !memcmp(f->name, n, nl) && !memcmp(f->sig, s, sl) && ((f->flags & 8) != 0) == st) return (jfieldID)f; }
    jvm_throw(&C_java_2f_lang_2f_NoSuchFieldError); return 0; }
static jfieldID J_GetFieldID(JNIEnv *, jclass k, const char *n, const char *s) { ENTER("GetFieldID"); return field(k, n, s, false); }
static jfieldID J_GetStaticFieldID(JNIEnv *, jclass k, const char *n, const char *s) { ENTER("GetStaticFieldID"); return field(k, n, s, true); }
static void *fptr(jobject o, jfieldID id, char t) {
    need(id != 0, "null field id"); Fld *f = (Fld *)id; Obj *x = nonnull(o, "field access on null");
    need(!(f->flags & 8) && jvm_inst(x, f->cls), "field id used on an object of another class");
    need(t == 'L' ? (f->sig[0] == 'L' || f->sig[0] == '[') : f->sig[0] == t, "field id used with another type");
    return (char *)x + f->off; }
static void *sptr(jclass k, jfieldID id, char t) {
    need(id != 0, "null field id"); Fld *f = (Fld *)id; Cls *c = cls(k);
    need((f->flags & 8) && jvm_sub(c, f->cls), "static field id used with another class");
    need(t == 'L' ? (f->sig[0] == 'L' || f->sig[0] == '[') : f->sig[0] == t, "field id used with another type");
    return f->addr; }
#define FIELD(N, T, C) \
    static T J_Get##N##Field(JNIEnv *, jobject o, jfieldID f) { ENTER("Get" #N "Field"); return *(T *)fptr(o, f, C); } \
    static void J_Set##N##Field(JNIEnv *, jobject o, jfieldID f, T v) { ENTER("Set" #N "Field"); *(T *)fptr(o, f, C) = v; } \
    static T J_GetStatic##N##Field(JNIEnv *, jclass o, jfieldID f) { ENTER("GetStatic" #N "Field"); return *(T *)sptr(o, f, C); } \
    static void J_SetStatic##N##Field(JNIEnv *, jclass o, jfieldID f, T v) { ENTER("SetStatic" #N "Field"); *(T *)sptr(o, f, C) = v; }
FIELD(Boolean, jboolean, 'Z') FIELD(Byte, jbyte, 'B') FIELD(Char, jchar, 'C') FIELD(Short, jshort, 'S') FIELD(Int, jint, 'I') FIELD(Long, jlong, 'J') FIELD(Float, jfloat, 'F') FIELD(Double, jdouble, 'D')
static jobject J_GetObjectField(JNIEnv *, jobject o, jfieldID f) { ENTER("GetObjectField"); return jvm_local(*(Obj **)fptr(o, f, 'L')); }
static void J_SetObjectField(JNIEnv *, jobject o, jfieldID f, jobject v) { ENTER("SetObjectField"); *(Obj **)fptr(o, f, 'L') = deref(v); }
static jobject J_GetStaticObjectField(JNIEnv *, jclass o, jfieldID f) { ENTER("GetStaticObjectField"); return jvm_local(*(Obj **)sptr(o, f, 'L')); }
static void J_SetStaticObjectField(JNIEnv *, jclass o, jfieldID f, jobject v) { ENTER("SetStaticObjectField"); *(Obj **)sptr(o, f, 'L') = deref(v); }
// ---------------------------------------------------------------- calls
static const char *next_arg(const char *s) { while (*s == '[') s++; if (*s == 'L') while (*s != ';') s++; return s + 1; }
static char ret_type(Mth *m) { const char *s = m->sig; while (*s != ')') s++; return s[1] == '[' ? 'L' : s[1]; }
static void args_v(Mth *m, va_list v, JV *a) {
    for (const char *s = m->sig + 1; *s != ')'; s = next_arg(s), a++) switch (*s) {
        case 'Z': a->i = (jboolean)va_arg(v, jint) != 0; break;
        case 'B': a->i = (jbyte)va_arg(v, jint); break;
        case 'C': a->i = (jchar)va_arg(v, jint); break;
        case 'S': a->i = (jshort)va_arg(v, jint); break;
        case 'I': a->i = va_arg(v, jint); break;
        case 'J': a->j = va_arg(v, jlong); break;
        case 'F': a->f = (float)va_arg(v, double); break;
        case 'D': a->d = va_arg(v, double); break;
        default: a->l = deref(va_arg(v, jobject)); break; } }
static void args_a(Mth *m, const jvalue *v, JV *a) {
    for (const char *s = m->sig + 1; *s != ')'; s = next_arg(s), a++, v++) switch (*s) {
        case 'Z': a->i = v->z != 0; break; case 'B': a->i = v->b; break; case 'C': a->i = v->c; break; case 'S': a->i = v->s; break; case 'I': a->i = v->i; break;
        case 'J': a->j = v->j; break; case 'F': a->f = v->f; break; case 'D': a->d = v->d; break; default: a->l = deref(v->l); break; } }
static const char *cls_of_arg(const char *s, const char **e) { *e = next_arg(s); return s; }
static void check_args(Mth *m, JV *a) {     // reference arguments must be of the declared class
    for (const char *s = m->sig + 1, *e; *s != ')'; s = e, a++) {
        cls_of_arg(s, &e);
        if ((*s != 'L' && *s != '[') || !a->l) continue;
        const char *n = *s == 'L' ? s + 1 : s; int l = (int)(e - n) - (*s == 'L');
        Cls *c = a->l->cls; bool ok = false;
        if (c->nlen == l && !memcmp(c->name, n, l)) continue;
        for (int i = 0; i < jvm_nclasses && !ok; i++) { Cls *k = jvm_classes[i]; if (k->nlen == l && !memcmp(k->name, n, l)) ok = jvm_sub(c, k); }
        need(ok, "object of the wrong class passed to a Java method"); } }
static Mth *virt(Obj *o, Mth *m) {
    need(jvm_inst(o, m->cls), "method id used on an object of another class");
    if (m->flags & 2) return m;
    for (Cls *x = o->cls; x; x = x->super) for (int i = 0; i < x->nm; i++) if (x->m[i].sel == m->sel && !(x->m[i].flags & 0x408)) return &x->m[i];
    if (!(m->flags & 0x400)) return m;
    jvm_fail("abstract method called"); }
static void invoke(Obj *self, Mth *m, JV *a, JV *r) { check_args(m, a); nenter++; need(nenter < 16, "unbounded recursion"); m->inv(self, a, r); nenter--; if (jvm_exc) memset(r, 0, sizeof *r); }
static Mth *inst_m(jobject o, jmethodID id, char t) {
    need(id != 0, "null method id"); Mth *m = (Mth *)id; Obj *x = nonnull(o, "method call on null"); need(!(m->flags & 8), "static method id used for an instance call"); need(ret_type(m) == t, "method id used with another result type"); return virt(x, m); }
static Mth *stat_m(jclass k, jmethodID id, char t) {
    need(id != 0, "null method id"); Mth *m = (Mth *)id; Cls *c = cls(k); need((m->flags & 8) && jvm_sub(c, m->cls), "static method id used with another class"); need(ret_type(m) == t, "method id used with another result type"); jvm_init(m->cls); return m; }
static Mth *spec_m(jobject o, jclass k, jmethodID id, char t) {
    need(id != 0, "null method id"); Mth *m = (Mth *)id; Obj *x = nonnull(o, "method call on null"); need(!(m->flags & 0x408) && jvm_inst(x, m->cls) && jvm_sub(cls(k), m->cls), "method id used with another class"); need(ret_type(m) == t, "method id used with another result type"); return m; }
#define VOIDR(x)
#define VALR(f, T) return (T)r.f
#define CALL(N, T, C, RET) \
    static T J_Call##N##MethodV(JNIEnv *, jobject o, jmethodID id, va_list v) { ENTER("Call" #N "Method"); Mth *m = inst_m(o, id, C); JV a[16], r; r.j = 0; args_v((Mth *)id, v, a); invoke(deref(o), m, a, &r); RET; } \
    static T J_Call##N##Method(JNIEnv *, jobject o, jmethodID id, ...) { ENTER("Call" #N "Method"); Mth *m = inst_m(o, id, C); JV a[16], r; r.j = 0; va_list v; va_start(v, id); args_v((Mth *)id, v, a); va_end(v); invoke(deref(o), m, a, &r); RET; } \
    static T J_Call##N##MethodA(JNIEnv *, jobject o, jmethodID id, const jvalue *v) { ENTER("Call" #N "Method"); Mth *m = inst_m(o, id, C); JV a[16], r; r.j = 0; args_a((Mth *)id, v, a); invoke(deref(o), m, a, &r); RET; } \
    static T J_CallNonvirtual##N##MethodV(JNIEnv *, jobject o, jclass k, jmethodID id, va_list v) { ENTER("CallNonvirtual" #N "Method"); Mth *m = spec_m(o, k, id, C); JV a[16], r; r.j = 0; args_v(m, v, a); invoke(deref(o), m, a, &r); RET; } \
    static T J_CallNonvirtual##N##Method(JNIEnv *, jobject o, jclass k, jmethodID id, ...) { ENTER("CallNonvirtual" #N "Method"); Mth *m = spec_m(o, k, id, C); JV a[16], r; r.j = 0; va_list v; va_start(v, id); args_v(m, v, a); va_end(v); invoke(deref(o), m, a, &r); RET; } \
    static T J_CallNonvirtual##N##MethodA(JNIEnv *, jobject o, jclass k, jmethodID id, const jvalue *v) { ENTER("CallNonvirtual" #N "Method"); Mth *m = spec_m(o, k, id, C); JV a[16], r; r.j = 0; args_a(m, v, a); invoke(deref(o), m, a, &r); RET; } \
    static T J_CallStatic##N##MethodV(JNIEnv *, jclass k, jmethodID id, va_list v) { ENTER("CallStatic" #N "Method"); Mth *m = stat_m(k, id, C); JV a[16], r; r.j = 0; args_v(m, v, a); invoke(0, m, a, &r); RET; } \
    static T J_CallStatic##N##Method(JNIEnv *, jclass k, jmethodID id, ...) { ENTER("CallStatic" #N "Method"); Mth *m = stat_m(k, id, C); JV a[16], r; r.j = 0; va_list v; va_start(v, id); args_v(m, v, a); va_end(v); invoke(0, m, a, &r); RET; } \
    static T J_CallStatic##N##MethodA(JNIEnv *, jclass k, jmethodID id, const jvalue *v) { ENTER("CallStatic" #N "Method"); Mth *m = stat_m(k, id, C); JV a[16], r; r.j = 0; args_a(m, v, a); invoke(0, m, a, &r); RET; }
static jobject obj_result(JV &r) { return jvm_exc ? 0 : jvm_local(r.l); }
CALL(Void, void, 'V', ) CALL(Object, jobject, 'L', return obj_result(r)) CALL(Boolean, jboolean, 'Z', return r.i != 0) CALL(Byte, jbyte, 'B', return (jbyte)r.i) CALL(Char, jchar, 'C', return (jchar)r.i)
CALL(Short, jshort, 'S', return (jshort)r.i) CALL(Int, jint, 'I', return r.i) CALL(Long, jlong, 'J', return r.j) CALL(Float, jfloat, 'F', return r.f) CALL(Double, jdouble, 'D', return r.d)
static Obj *allocobj(jclass k) { Cls *c = cls(k); if (c->flags & 0x600) { jvm_throw(&C_java_2f_lang_2f_InstantiationException); return 0; } jvm_init(c); need(c != &C_java_2f_lang_2f_String && c != &C_java_2f_lang_2f_Class && !c->elem, "AllocObject of a string, class or array"); return jvm_new(c); }
static jobject J_AllocObject(JNIEnv *, jclass k) { ENTER("AllocObject"); return jvm_local(allocobj(k)); }
static jobject newobj(jclass k, Mth *m, JV *a) { need(m && m->cls == cls(k) && m->name[0] == '<', "constructor id of another class"); Obj *o = allocobj(k); if (!o) return 0; JV r; invoke(o, m, a, &r); return jvm_exc ? 0 : jvm_local(o); }
static jobject J_NewObject(JNIEnv *, jclass k, jmethodID id, ...) { ENTER("NewObject"); need(id != 0, "null method id"); JV a[16]; va_list v; va_start(v, id); args_v((Mth *)id, v, a); va_end(v); return newobj(k, (Mth *)id, a); }
static jobject J_NewObjectV(JNIEnv *, jclass k, jmethodID id, va_list v) { ENTER("NewObject"); need(id != 0, "null method id"); JV a[16]; args_v((Mth *)id, v, a); return newobj(k, (Mth *)id, a); }
static jobject J_NewObjectA(JNIEnv *, jclass k, jmethodID id, const jvalue *v) { ENTER("NewObject"); need(id != 0, "null method id"); JV a[16]; args_a((Mth *)id, v, a); return newobj(k, (Mth *)id, a); }
// ---------------------------------------------------------------- exceptions
static jint J_Throw(JNIEnv *, jthrowable t) { ENTER("Throw"); Obj *o = nonnull(t, "Throw(null)"); need(jvm_inst(o, &C_java_2f_lang_2f_Throwable), "Throw of a non-throwable"); jvm_exc = o; return 0; }
static jint J_ThrowNew(JNIEnv *, jclass k, const char *msg) {
    ENTER("ThrowNew"); Cls *c = cls(k); need(jvm_sub(c, &C_java_2f_lang_2f_Throwable), "ThrowNew of a class that is no throwable"); jvm_init(c);
    Mth *m = find(c, "<init>", 6, msg ? "(Ljava/lang/String;)V" : "()V", msg ? 21 : 3); need(m && m->cls == c, "ThrowNew: no such constructor");
    Obj *o = jvm_new(c); JV a, r; a.l = msg ? from_mutf8(msg) : 0; m->inv(o, &a, &r); if (!jvm_exc) jvm_exc = o; return 0; }
static jthrowable J_ExceptionOccurred(JNIEnv *) { ENTER_P(); return (jthrowable)jvm_local(jvm_exc); }
static jboolean J_ExceptionCheck(JNIEnv *) { ENTER_P(); return jvm_exc != 0; }
static void J_ExceptionDescribe(JNIEnv *) { ENTER_P(); jvm_exc = 0; } // the specification: "the pending exception is cleared as a side-effect"
static void J_ExceptionClear(JNIEnv *) { ENTER_P(); jvm_exc = 0; }
static void J_FatalError(JNIEnv *, const char *) { __builtin_trap(); }
// ---------------------------------------------------------------- references
static jobject J_NewGlobalRef(JNIEnv *, jobject r) { ENTER("NewGlobalRef"); Obj *o = deref(r); return o ? (jobject)mkref(o, 2, &globals) : 0; }
static void J_DeleteGlobalRef(JNIEnv *, jobject r) { ENTER_P(); if (!r) return; deref(r); need(((Ref *)r)->kind == 2, "DeleteGlobalRef of a local reference"); rmref((Ref *)r, &globals); }
static jobject J_NewLocalRef(JNIEnv *, jobject r) { ENTER("NewLocalRef"); return jvm_local(deref(r)); }
static void J_DeleteLocalRef(JNIEnv *, jobject r) {
    ENTER_P(); if (!r) return; deref(r); need(((Ref *)r)->kind == 1, "DeleteLocalRef of a global reference");
    for (Frame *f = cur; f; f = f->up) for (Ref *x = f->head; x; x = x->next) if (x == (Ref *)r) { f->n--; rmref(x, &f->head); return; }
    jvm_fail("DeleteLocalRef of an unknown reference"); }
static jint J_EnsureLocalCapacity(JNIEnv *, jint) { ENTER("EnsureLocalCapacity"); return 0; }
static jint J_PushLocalFrame(JNIEnv *, jint) { ENTER_P(); Frame *f = (Frame *)operator new(sizeof(Frame)); jvm_enter(f); f->pushed = 1; return 0; }
static jobject J_PopLocalFrame(JNIEnv *, jobject r) { ENTER_P(); need(cur && cur->pushed, "PopLocalFrame without PushLocalFrame"); Obj *o = deref(r); Frame *f = cur; drop_frame(f); operator delete(f); return jvm_local(o); }
static jobjectRefType J_GetObjectRefType(JNIEnv *, jobject r) { ENTER("GetObjectRefType"); if (!r) return JNIInvalidRefType; deref(r); return ((Ref *)r)->kind == 1 ? JNILocalRefType : JNIGlobalRefType; }
// ---------------------------------------------------------------- arrays
static Arr *arr(jobject r, char e) { Obj *o = nonnull(r, "null array passed to the JNI environment"); need(o->cls->elem != 0 && (e == 0 || o->cls->elem == e), "not an array of that type"); return (Arr *)o; }
static Cls *arrcls(const char *n, int l) { for (int i = 0; i < jvm_nclasses; i++) { Cls *c = jvm_classes[i]; if (c->nlen == l && !memcmp(c->name, n, l)) return c; } jvm_fail("array class is outside the model"); }
static jsize J_GetArrayLength(JNIEnv *, jarray a) { ENTER("GetArrayLength"); return arr(a, 0)->len; }
#define ARRAY(N, T, C) \
    static T##Array J_New##N##Array(JNIEnv *, jsize n) { ENTER("New" #N "Array"); need(n >= 0, "negative array size"); const char nm[2] = {'[', C}; return (T##Array)jvm_local(jvm_newarr(arrcls(nm, 2), n)); } \
    static T *J_Get##N##ArrayElements(JNIEnv *, T##Array a, jboolean *c) { ENTER("Get" #N "ArrayElements"); Arr *x = arr(a, C); unsigned long n = sizeof(T) * (unsigned long)x->len; T *p = (T *)operator new(n); if (n) memcpy(p, x->d, n); if (c) *c = 1; pin(x, p, C); return p; } \
    static void J_Release##N##ArrayElements(JNIEnv *, T##Array a, T *p, jint mode) { ENTER_P(); Arr *x = arr(a, C); need(mode == 0 || mode == JNI_COMMIT || mode == JNI_ABORT, "bad release mode"); if (mode != JNI_ABORT && x->len) memcpy(x->d, p, sizeof(T) * (unsigned long)x->len); unpin(x, p, C, mode == JNI_COMMIT); } \
    static bool rng_##N(Arr *x, jsize s, jsize n) { if (s < 0 || n < 0 || (int64_t)s + n > x->len) { jvm_throw(&C_java_2f_lang_2f_ArrayIndexOutOfBoundsException); return false; } return n != 0; } \
    static void J_Get##N##ArrayRegion(JNIEnv *, T##Array a, jsize s, jsize n, T *b) { ENTER("Get" #N "ArrayRegion"); Arr *x = arr(a, C); if (rng_##N(x, s, n)) memcpy(b, (T *)x->d + s, sizeof(T) * (unsigned long)n); } \
    static void J_Set##N##ArrayRegion(JNIEnv *, T##Array a, jsize s, jsize n, const T *b) { ENTER("Set" #N "ArrayRegion"); Arr *x = arr(a, C); if (rng_##N(x, s, n)) memcpy((T *)x->d + s, b, sizeof(T) * (unsigned long)n); }
ARRAY(Boolean, jboolean, 'Z') ARRAY(Byte, jbyte, 'B') ARRAY(Char, jchar, 'C') ARRAY(Short, jshort, 'S') ARRAY(Int, jint, 'I') ARRAY(Long, jlong, 'J') ARRAY(Float, jfloat, 'F') ARRAY(Double, jdouble, 'D')
static jobjectArray J_NewObjectArray(JNIEnv *, jsize n, jclass k, jobject init) {
    ENTER("NewObjectArray"); need(n >= 0, "negative array size"); Cls *c = cls(k); char nm[256]; need(c->nlen < 250 && !c->elem, "class name"); nm[0] = '['; nm[1] = 'L'; memcpy(nm + 2, c->name, c->nlen); nm[c->nlen + 2] = ';';
    Arr *a = (Arr *)jvm_newarr(arrcls(nm, c->nlen + 3), n); Obj *o = deref(init); for (int i = 0; i < n; i++) ((Obj **)a->d)[i] = o; return (jobjectArray)jvm_local(a); }
static jobject J_GetObjectArrayElement(JNIEnv *, jobjectArray a, jsize i) {
    ENTER("GetObjectArrayElement"); Arr *x = arr(a, 'L'); if (i < 0 || i >= x->len) { jvm_throw(&C_java_2f_lang_2f_ArrayIndexOutOfBoundsException); return 0; } return jvm_local(((Obj **)x->d)[i]); }
static void J_SetObjectArrayElement(JNIEnv *, jobjectArray a, jsize i, jobject v) {
    ENTER("SetObjectArrayElement"); Arr *x = arr(a, 'L'); if (i < 0 || i >= x->len) { jvm_throw(&C_java_2f_lang_2f_ArrayIndexOutOfBoundsException); return; }
    Obj *o = deref(v); if (o && x->cls->ecls && !jvm_inst(o, x->cls->ecls)) { jvm_throw(&C_java_2f_lang_2f_ArrayStoreException); return; } ((Obj **)x->d)[i] = o; }
static jint J_MonitorEnter(JNIEnv *, jobject o) { ENTER("MonitorEnter"); nonnull(o, "MonitorEnter(null)")->mon++; return 0; }
static jint J_MonitorExit(JNIEnv *, jobject o) { ENTER_P(); nonnull(o, "MonitorExit(null)")->mon--; return 0; }
// ---------------------------------------------------------------- VM
extern JavaVM jvm_vm;
API void vp_unmodelled();
static jint J_GetJavaVM(JNIEnv *, JavaVM **v) { ENTER("GetJavaVM"); *v = &jvm_vm; return 0; }
static jint V_GetEnv(JavaVM *, void **e, jint ver) {
    if (ver != JNI_VERSION_1_1 && ver != JNI_VERSION_1_2 && ver != JNI_VERSION_1_4 && ver != JNI_VERSION_1_6 && ver != JNI_VERSION_1_8 && ver != JNI_VERSION_9 && ver != JNI_VERSION_10) { *e = 0; return JNI_EVERSION; }
    if (detached && !attached) { *e = 0; return JNI_EDETACHED; } *e = &jvm_env; return 0; }
static jint V_Attach(JavaVM *, void **e, void *) { if (detached && !attached) { attached = 1; jvm_enter(&attach_frame); } *e = &jvm_env; return 0; }
static jint V_Detach(JavaVM *) {
    need(detached && attached, "DetachCurrentThread of a thread that native code did not attach"); need(!jvm_exc, "thread detached with a pending exception"); drop_frame(&attach_frame); attached = 0; return 0; }
static jint V_Destroy(JavaVM *) { jvm_fail("DestroyJavaVM called"); }
static JNIInvokeInterface_ vtable = { 0, 0, 0, V_Destroy, V_Attach, V_Detach, V_GetEnv, V_Attach };
JavaVM jvm_vm = { &vtable };
API void vp_detached(int on) { if (!on) need(!attached, "thread attached by native code is not detached again"); detached = on; }
#define C1(N) f.Call##N##Method = J_Call##N##Method; f.Call##N##MethodV = J_Call##N##MethodV; f.Call##N##MethodA = J_Call##N##MethodA; \
    f.CallNonvirtual##N##Method = J_CallNonvirtual##N##Method; f.CallNonvirtual##N##MethodV = J_CallNonvirtual##N##MethodV; f.CallNonvirtual##N##MethodA = J_CallNonvirtual##N##MethodA; \
    f.CallStatic##N##Method = J_CallStatic##N##Method; f.CallStatic##N##MethodV = J_CallStatic##N##MethodV; f.CallStatic##N##MethodA = J_CallStatic##N##MethodA;
#define F1(N) f.Get##N##Field = J_Get##N##Field; f.Set##N##Field = J_Set##N##Field; f.GetStatic##N##Field = J_GetStatic##N##Field; f.SetStatic##N##Field = J_SetStatic##N##Field;
#define A1(N) f.New##N##Array = J_New##N##Array; f.Get##N##ArrayElements = J_Get##N##ArrayElements; f.Release##N##ArrayElements = J_Release##N##ArrayElements; f.Get##N##ArrayRegion = J_Get##N##ArrayRegion; f.Set##N##ArrayRegion = J_Set##N##ArrayRegion;
#define S(N) f.N = J_##N;
struct Table : JNINativeInterface_ {
    constexpr Table() : JNINativeInterface_() {
        JNINativeInterface_ &f = *this;
        f.CallVoidMethod = J_CallVoidMethod;
        C1(Void) C1(Object) C1(Boolean) C1(Byte) C1(Char) C1(Short) C1(Int) C1(Long) C1(Float) C1(Double)
        F1(Object) F1(Boolean) F1(Byte) F1(Char) F1(Short) F1(Int) F1(Long) F1(Float) F1(Double)
        A1(Boolean) A1(Byte) A1(Char) A1(Short) A1(Int) A1(Long) A1(Float) A1(Double)
        S(GetVersion) S(FindClass) S(GetSuperclass) S(IsAssignableFrom) S(Throw) S(ThrowNew) S(ExceptionOccurred) S(ExceptionDescribe) S(ExceptionClear) S(FatalError) S(PushLocalFrame) S(PopLocalFrame)
        S(NewGlobalRef) S(DeleteGlobalRef) S(DeleteLocalRef) S(IsSameObject) S(NewLocalRef) S(EnsureLocalCapacity) S(AllocObject) S(NewObject) S(NewObjectV) S(NewObjectA) S(GetObjectClass) S(IsInstanceOf)
        S(GetMethodID) S(GetFieldID) S(GetStaticMethodID) S(GetStaticFieldID) S(NewString) S(GetStringLength) S(GetStringChars) S(ReleaseStringChars) S(NewStringUTF) S(GetStringUTFLength) S(GetStringUTFChars) S(ReleaseStringUTFChars)
        S(GetArrayLength) S(NewObjectArray) S(GetObjectArrayElement) S(SetObjectArrayElement) S(MonitorEnter) S(MonitorExit) S(GetJavaVM) S(GetStringRegion) S(ExceptionCheck) S(GetObjectRefType)
        f.GetStringCritical = J_GetStringChars; f.ReleaseStringCritical = J_ReleaseStringChars;
    }
};
static constexpr Table table0;
static JNINativeInterface_ table = table0;
JNIEnv jvm_env = { &table };
// ---------------------------------------------------------------- life cycle
API jint JNI_OnLoad(JavaVM *, void *) __attribute__((weak));
API void JNI_OnUnload(JavaVM *, void *) __attribute__((weak));
static void finalize(Obj *o) {
    if (o->fin & 1) return; o->fin |= 1;
    Mth *m = 0; for (Cls *x = o->cls; x->super && !m; x = x->super) for (int i = 0; i < x->nm; i++) if (x->m[i].nlen == 8 && !memcmp(x->m[i].name, "finalize", 8) && x->m[i].slen == 3) m = &x->m[i];
    if (!m) return;
    JV r; m->inv(o, 0, &r); jvm_exc = 0; }
// an object the harness gave up (V.temp) that a wrapper does not hold over its native call: the collector takes it
void jvm_unreach(Obj *o) { if ((o->fin & 3) == 2) { Obj *e = jvm_exc; jvm_exc = 0; finalize(o); jvm_exc = e; } }
static void load() {
    Frame fr; jvm_enter(&fr);
    jint v = JNI_OnLoad(&jvm_vm, 0); void *e;
    need(!jvm_exc, "JNI_OnLoad leaves an exception pending");
    need(V_GetEnv(&jvm_vm, &e, v) == 0, "JNI_OnLoad does not return a JNI version");
    jvm_leave(&fr, 0); }
static void unload() {
    Frame fr; jvm_enter(&fr); JNI_OnUnload(&jvm_vm, 0); need(!jvm_exc, "JNI_OnUnload leaves an exception pending"); jvm_leave(&fr, 0);
    need(globals == 0, "a global reference is never released");
    need(pins == 0, "an array or string buffer is never released"); }
// unload and load the native library again (the harness holds no object with a native part then)
static void reload() { Frame *c = cur; cur = 0; unload(); load(); cur = c; }
void jvm_run(void (*f)()) {
    load();
    f();
    need(!jvm_exc, "uncaught Java exception");
    for (Obj *o = heap; o; o = o->next) finalize(o);
    unload();
    while (heap) { Obj *o = heap; heap = o->next; need(o->mon == 0, "monitor left locked"); operator delete((void *)o); } }
// ---------------------------------------------------------------- native methods of the modelled library
#define NAT(T, C, N, D) T M_##C##_##N##_##D
static Str *S_(Obj *o) { return (Str *)o; }
int32_t M_java_2f_lang_2f_String_length__28__29_I(Obj *s) { return S_(s)->len; }
int32_t M_java_2f_lang_2f_String_charAt__28_I_29_C(Obj *s, int32_t i) { if ((uint32_t)i >= (uint32_t)S_(s)->len) { jvm_throw(&C_java_2f_lang_2f_StringIndexOutOfBoundsException); return 0; } return S_(s)->c[i]; }
int32_t M_java_2f_lang_2f_String_equals__28_Ljava_2f_lang_2f_Object_3b__29_Z(Obj *s, Obj *o) {
    if (!o || o->cls != s->cls || S_(o)->len != S_(s)->len) return 0; uint16_t d = 0; for (int i = 0; i < S_(s)->len; i++) d |= S_(s)->c[i] ^ S_(o)->c[i]; return d == 0; }
Obj *M_java_2f_lang_2f_String_concat__28_Ljava_2f_lang_2f_String_3b__29_Ljava_2f_lang_2f_String_3b_(Obj *s, Obj *o) {
    int n = S_(s)->len, k = S_(o)->len; uint16_t *b = (uint16_t *)operator new(2ul * (n + k)); if (n) memcpy(b, S_(s)->c, 2ul * n); if (k) memcpy(b + n, S_(o)->c, 2ul * k); Obj *r = jvm_newstr(b, n + k); operator delete(b); return r; }
int32_t M_java_2f_lang_2f_Float_floatToRawIntBits__28_F_29_I(float f) { int32_t x; __builtin_memcpy(&x, &f, 4); return x; }
float M_java_2f_lang_2f_Float_intBitsToFloat__28_I_29_F(int32_t x) { float f; __builtin_memcpy(&f, &x, 4); return f; }
int64_t M_java_2f_lang_2f_Double_doubleToRawLongBits__28_D_29_J(double f) { int64_t x; __builtin_memcpy(&x, &f, 8); return x; }
double M_java_2f_lang_2f_Double_longBitsToDouble__28_J_29_D(int64_t x) { double f; __builtin_memcpy(&f, &x, 8); return f; }
Obj *M_java_2f_lang_2f_Object_getClass__28__29_Ljava_2f_lang_2f_Class_3b_(Obj *o) { return jvm_mirror(o->cls); }
#define V(N, D) M_vp_2f_V_##N##__28_##D
int32_t V(i8, _29_B)() { return (int8_t)nd_u8(); }
int32_t V(i16, _29_S)() { return (int16_t)nd_u16(); }
int32_t V(c16, _29_C)() { return nd_u16(); }
int32_t V(i32, _29_I)() { return (int32_t)nd_u32(); }
int64_t V(i64, _29_J)() { return (int64_t)nd_u64(); }
int32_t V(bool, _29_Z)() { return nd_bool(); }
float V(f32, _29_F)() { uint32_t x = nd_f32(); float f; __builtin_memcpy(&f, &x, 4); return f; }
double V(f64, _29_D)() { uint64_t x = nd_f64(); double f; __builtin_memcpy(&f, &x, 8); return f; }
int32_t V(pick, I_29_I)(int32_t n) { return (int32_t)nd_pick((uint32_t)n); }
void V(assume, Z_29_V)(int32_t c) { v_assume(c); }
void V(chk, Z_29_V)(int32_t c) { v_chk(c, "chk"); }
void V(obs, J_29_V)(int64_t x) { v_obs((uint64_t)x); }
void V(expectAbort, _29_V)() { v_expect_abort(); }
void V(gc, Ljava_2f_lang_2f_Object_3b__29_V)(Obj *o) { if (o) finalize(o); }
void V(temp, Ljava_2f_lang_2f_Object_3b__29_V)(Obj *o) { if (o) o->fin |= 2; }
void V(reload, _29_V)() { reload(); }
Obj *V(str, I_29_Ljava_2f_lang_2f_String_3b_)(int32_t n) { uint16_t b[16]; for (int i = 0; i < n && i < 16; i++) b[i] = nd_u16(); return jvm_newstr(b, n); }
