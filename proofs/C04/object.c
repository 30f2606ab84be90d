/* Contract of the target environment (kefir_ast_translator_environment: get_type / object_info / object_offset): size, alignment
 * and member offsets of every object type are those of the System-V AMD64 psABI. Real code: type translation, IR type visitor, data
 * layout, layout evaluation, designator resolution. Member types are enumerated; array lengths, the size of what precedes a
 * member and subscripts are symbolic; bit-field storage comes from the allocator by contract (unit bitfields proves it). */
#include "layout.h"
#include "kefir/ast-translator/misc.h"
enum { K_PTR = T_N, K_ENUM, K_CINT, K_VALIST, K_NSCALAR, K_ARR = 100, K_ST = 200, K_UN = 300, K_ANON = 400, K_ARR2 = 500, K_FLEX = 600, K_EMPTYARR = 700 };
static uint64_t g_n, g_m; /* lengths of arrays */
static int max2(int a, int b) { return a > b ? a : b; }
static uint64_t pad(uint64_t o, unsigned a) { return (o + (a - 1)) & ~(uint64_t) (a - 1); }
static unsigned s_align(int k) {
    static const unsigned r[] = {1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 8, 4, 4, 8};
    return r[k % 100];
}
static uint64_t s_size(int k) {
    static const unsigned r[] = {1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 8, 4, 4, 24};
    uint64_t e = r[k % 100];
    unsigned a = s_align(k);
    switch (k / 100) {
        case 1: return e * g_n;                         /* E m[n] */
        case 2: case 4: return pad(a + e, a);           /* struct { char q; E e; } (4: anonymous) */
        case 3: return pad(e > 3 ? e : 3, a);           /* union { char q[3]; E e; } */
        case 5: return (e * g_n) * g_m;                 /* E m[m][n] */
        case 6: return 0;                               /* E m[] */
        default: return e;
    }
}
/* type objects */
static struct kefir_ast_type o_ptr, o_enum, o_cint, o_va;
/* array and structure types with the union replaced by the member in use (layout asserted): the verifier reads unions bytewise */
typedef struct {
    kefir_ast_type_tag_t tag;
    kefir_bool_t basic;
    struct kefir_ast_type_ops ops;
    struct {
        const struct kefir_ast_type *element_type;
        kefir_ast_array_boundary_type_t boundary;
        struct kefir_ast_type_qualification qualifications;
        void *const_length;
    } array_type;
    void *tail[16];
} arr_t;
typedef struct {
    kefir_ast_type_tag_t tag;
    kefir_bool_t basic;
    struct kefir_ast_type_ops ops;
    struct kefir_ast_struct_type structure_type;
    void *tail[16];
} st_t;
typedef struct {
    kefir_ast_constant_expression_class_t klass;
    kefir_ast_constant_expression_int_t integer;
    void *tail[16];
} cexpr_t;
#define OFF(a, b, m) __builtin_offsetof(a, m) == __builtin_offsetof(b, m)
_Static_assert(OFF(arr_t, struct kefir_ast_type, array_type.element_type) && OFF(arr_t, struct kefir_ast_type, array_type.boundary) && OFF(arr_t, struct kefir_ast_type, array_type.const_length) &&
               sizeof(arr_t) >= sizeof(struct kefir_ast_type) && OFF(st_t, struct kefir_ast_type, structure_type.fields) && sizeof(st_t) >= sizeof(struct kefir_ast_type) &&
               __builtin_offsetof(cexpr_t, integer) == __builtin_offsetof(struct kefir_ast_constant_expression, value.integer), "layout");
static arr_t o_arr[8];
static cexpr_t o_len[8];
static int n_arr;
static st_t o_st[6];
static struct kefir_ast_struct_field o_f[16];
static struct kefir_list_entry o_le[16];
static struct kefir_ast_alignment o_al[16];
static cexpr_t o_bw[16];
static int n_f, n_stt;
static const struct kefir_ast_type *arr(const struct kefir_ast_type *e, uint64_t n, int boundary) {
    int i = n_arr++;
    o_len[i].klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
    o_len[i].integer = (int64_t) n;
    o_arr[i].tag = KEFIR_AST_TYPE_ARRAY;
    o_arr[i].array_type.element_type = e;
    o_arr[i].array_type.boundary = boundary;
    o_arr[i].array_type.const_length = &o_len[i];
    return (const struct kefir_ast_type *) &o_arr[i];
}
static st_t *st_new(bool un) {
    st_t *t = &o_st[n_stt++];
    t->tag = un ? KEFIR_AST_TYPE_UNION : KEFIR_AST_TYPE_STRUCTURE;
    t->structure_type.complete = true;
    t->structure_type.fields.head = t->structure_type.fields.tail = NULL;
    t->structure_type.fields.length = 0;
    return t;
}
static int x_bf; /* the member being added is a bit-field */
static void st_add(st_t *t, const char *id, const struct kefir_ast_type *ft, unsigned al, int bits) {
    bool bf = x_bf;
    int i = n_f++;
    struct kefir_list *l = &t->structure_type.fields;
    o_al[i] = (struct kefir_ast_alignment){.klass = al ? KEFIR_AST_ALIGNMENT_AS_CONST_EXPR : KEFIR_AST_ALIGNMENT_DEFAULT, .value = al};
    o_bw[i].integer = bits;
    o_f[i] = (struct kefir_ast_struct_field){.identifier = id, .type = ft, .alignment = &o_al[i], .bitfield = bf, .bitwidth = bf ? (struct kefir_ast_constant_expression *) &o_bw[i] : NULL};
    o_le[i] = (struct kefir_list_entry){.value = &o_f[i], .prev = l->tail, .next = NULL};
    if (l->tail) l->tail->next = &o_le[i]; else l->head = &o_le[i];
    l->tail = &o_le[i];
    l->length++;
}
static const struct kefir_ast_type *mk(int k) {
    switch (k / 100) {
        case 1: return arr(mk(k % 100), g_n, KEFIR_AST_ARRAY_BOUNDED);
        case 5: return arr(arr(mk(k % 100), g_n, KEFIR_AST_ARRAY_BOUNDED), g_m, KEFIR_AST_ARRAY_BOUNDED);
        case 6: return arr(mk(k % 100), 0, KEFIR_AST_ARRAY_UNBOUNDED);
        case 2: case 4: {
            st_t *t = st_new(false);
            st_add(t, "q", ty(T_CHAR), 0, -1);
            st_add(t, "e", mk(k % 100), 0, -1);
            return (const struct kefir_ast_type *) t;
        }
        case 3: {
            st_t *t = st_new(true);
            st_add(t, "q", arr(ty(T_CHAR), 3, KEFIR_AST_ARRAY_BOUNDED), 0, -1);
            st_add(t, "e", mk(k % 100), 0, -1);
            return (const struct kefir_ast_type *) t;
        }
        default: break;
    }
    if (k < T_N) return ty(k);
    if (k == K_PTR) { o_ptr = (struct kefir_ast_type){.tag = KEFIR_AST_TYPE_SCALAR_POINTER, .referenced_type = kefir_ast_type_void()}; return &o_ptr; }
    if (k == K_ENUM) { o_enum = (struct kefir_ast_type){.tag = KEFIR_AST_TYPE_ENUMERATION, .enumeration_type = {.complete = true, .underlying_type = ty(T_SI)}}; return &o_enum; }
    if (k == K_CINT) { o_cint = (struct kefir_ast_type){.tag = KEFIR_AST_TYPE_QUALIFIED, .qualified_type = {.type = ty(T_SI), .qualification = {.constant = true}}}; return &o_cint; }
    return kefir_ast_type_va_list();
}
static struct kefir_ir_target_platform plat;
static struct kefir_ast_translator_environment env;
static struct kefir_ast_target_environment_object_info info;
static uint64_t x_off, x_size;
static unsigned x_al;
static const struct kefir_ast_target_environment *E;
static void *opaque;
static void type_is(const struct kefir_ast_type *t) {
    E = &env.target_env;
    VC_CHECK(E->get_type(&vc_mem, E, t, &opaque) == KEFIR_OK, "kefir_ast_target_environment.get_type: every complete object type has a layout");
}
/* the emitted address computation of a member: OFFSETPTR adds the offset of its type entry (instr.c) */
static uint64_t e_sum;
static kefir_result_t e_append(struct kefir_irbuilder_block *b, kefir_iropcode_t op, kefir_uint32_t a0, kefir_uint32_t a1) {
    struct kefir_ast_translator_environment_type *t = opaque;
    struct kefir_ir_target_type_info ti;
    (void) b;
    VC_CHECK(op == KEFIR_IROPCODE_OFFSETPTR && a0 == 7, "kefir_ast_translator_resolve_type_layout: only offsets within the given type are added");
    VC_CHECK(plat.type_info(&vc_mem, &plat, t->target_type, a1, &ti) == KEFIR_OK, "call-site precondition of the emitted offset");
    e_sum += ti.relative_offset;
    return KEFIR_OK;
}
static struct kefir_irbuilder_block e_builder;
/* designators, without their union */
typedef struct { kefir_ast_designator_type_t type; const char *member; void *next; } dm_t;
typedef struct { kefir_ast_designator_type_t type; kefir_size_t index; void *next; } di_t;
_Static_assert(OFF(dm_t, struct kefir_ast_designator, member) && OFF(dm_t, struct kefir_ast_designator, next) && OFF(di_t, struct kefir_ast_designator, index), "layout");
static bool members_only(const dm_t *d) { return d == NULL || (d->type == KEFIR_AST_DESIGNATOR_MEMBER && members_only(d->next)); }
static void expect(const void *d, uint64_t off, uint64_t size, unsigned al) {
    if (members_only(d)) {
        struct kefir_ast_translator_environment_type *t = opaque;
        struct kefir_ast_type_layout *l = t->layout;
        e_builder.appendu32 = e_append;
        e_sum = 0;
        if (d != NULL) VC_CHECK(kefir_ast_type_layout_resolve(t->layout, d, &l, NULL, NULL) == KEFIR_OK, "kefir_ast_type_layout_resolve: a member that exists is found");
        VC_CHECK(kefir_ast_translator_resolve_type_layout(&e_builder, 7, l, t->layout) == KEFIR_OK && e_sum == off, "kefir_ast_translator_resolve_type_layout: the emitted code adds exactly the offset of the member");
    }
    VC_CHECK(E->object_info(&vc_mem, E, opaque, d, &info) == KEFIR_OK, "kefir_ast_target_environment.object_info: a member that exists is found");
    VC_CHECK(info.relative_offset == off, "kefir_ast_target_environment.object_info: offset of the member");
    VC_CHECK(info.size == size, "kefir_ast_target_environment.object_info: size");
    VC_CHECK(info.alignment == al, "kefir_ast_target_environment.object_info: alignment");
}
static dm_t d1(const char *m) { return (dm_t){.type = KEFIR_AST_DESIGNATOR_MEMBER, .member = m, .next = NULL}; }
static di_t d1i(uint64_t i) { return (di_t){.type = KEFIR_AST_DESIGNATOR_SUBSCRIPT, .index = i, .next = NULL}; }
static kefir_result_t (*real_get_type)(struct kefir_mem *, struct kefir_ir_target_platform *, const struct kefir_ir_type *, kefir_ir_target_platform_opaque_type_t *);
static kefir_result_t marked_get_type(struct kefir_mem *m, struct kefir_ir_target_platform *p, const struct kefir_ir_type *t, kefir_ir_target_platform_opaque_type_t *o) {
    in_get_type = 1;
    kefir_result_t r = real_get_type(m, p, t, o);
    in_get_type = 0;
    return r;
}
static void reset(void) {
    heap_reset();
    n_arr = n_f = n_stt = 0;
    kefir_codegen_amd64_sysv_target_platform(&plat);
    real_get_type = plat.get_type;
    plat.get_type = marked_get_type;
    kefir_ast_translator_environment_init(&env, &plat);
    g_n = (ND32() & 0xffff) | (uint64_t) ND8() << 34;
    g_m = (ND8() & 3) | (uint64_t) (ND8() & 3) << 12;
}
/* two-dimensional arrays: fewer arbitrary bits in the length of a row */
static void few(int k) { if (k / 100 == 5) g_n = (ND8() & 15) | (uint64_t) (ND8() & 1) << 34; }
/* parts of a member of kind k that lies at offset o */
static void parts(int k, void *m, uint64_t o) {
    unsigned a = s_align(k % 100);
    /* subscripts: some arbitrary bits at the bottom and some far up (a full product of unknowns is out of the solver's reach) */
    uint64_t i = (ND8() & 15) | (uint64_t) (ND8() & 15) << 33, j = (ND8() & 3) | (uint64_t) (ND8() & 3) << 12;
    if (k / 100 == 1) { di_t x = d1i(i); x.next = m; expect(&x, o + i * s_size(k % 100), s_size(k % 100), a); }
    if (k / 100 == 6) { di_t x = d1i(i); x.next = m; expect(&x, o + i * s_size(k % 100), s_size(k % 100), a); }
    if (k / 100 == 5) {
        di_t x = d1i(j), y = d1i(i);
        x.next = m; y.next = &x;
        expect(&x, o + j * (s_size(k % 100) * g_n), s_size(k % 100) * g_n, a);
        expect(&y, o + j * (s_size(k % 100) * g_n) + i * s_size(k % 100), s_size(k % 100), a);
    }
    if (k / 100 == 2 || k / 100 == 3) {
        dm_t x = d1("e"), y = d1("q");
        x.next = y.next = m;
        expect(&x, o + (k / 100 == 2 ? a : 0), s_size(k % 100), a);
        expect(&y, o, k / 100 == 2 ? 1 : 3, 1);
    }
}
static void alone(int k) {
    reset();
    few(k);
    type_is(mk(k));
    expect(NULL, 0, s_size(k), s_align(k));
    parts(k, NULL, 0);
    kefir_int64_t off, i = k / 100 == 5 ? (ND8() & 3) : (ND8() & 15) | (int64_t) (ND8() & 15) << 33;
    VC_CHECK(E->object_offset(&vc_mem, E, opaque, i, &off) == KEFIR_OK && off == (int64_t) s_size(k) * i, "kefir_ast_target_environment.object_offset: i objects of the type are i times its size");
}
/* struct { _Alignas(A) char p[n]; _Alignas(B) K m; char z; } / union of the same */
static void member(int k, unsigned A, unsigned B, bool un, bool post) {
    reset();
    few(k);
    uint64_t n = ND32() | (uint64_t) ND8() << 32;
    st_t *t = st_new(un);
    unsigned al = B ? B : s_align(k);
    st_add(t, "p", arr(ty(T_CHAR), n, KEFIR_AST_ARRAY_BOUNDED), A, -1);
    st_add(t, k / 100 == 4 ? NULL : "m", mk(k), B, -1);
    if (post) st_add(t, "z", ty(T_CHAR), 0, -1);
    type_is((const struct kefir_ast_type *) t);
    uint64_t o = un ? 0 : pad(n, al), end = o + s_size(k), total;
    unsigned wal = max2(A ? A : 1, al);
    total = un ? (n > s_size(k) ? n : s_size(k)) : end + post;
    if (un && post && total < 1) total = 1;
    expect(NULL, 0, pad(total, wal), wal);
    dm_t p = d1("p"), m = d1("m"), z = d1("z");
    expect(&p, 0, n, A ? A : 1);
    if (k / 100 == 4) {
        dm_t e = d1("e"), q = d1("q");
        expect(&e, o + s_align(k), s_size(k % 100), s_align(k));
        expect(&q, o, 1, 1);
    } else {
        expect(&m, o, s_size(k), al);
        parts(k, &m, o);
    }
    if (post) expect(&z, un ? 0 : end, 1, 1);
}
/* --- bit-fields: the allocator by contract, its answers scripted --- */
static int g_script;        /* bit i: the (i+1)th bit-field joins the run of the one before */
static int bf_calls, bf_run;
static uint64_t bf_off[4], bf_param[4];
static uint64_t bf_tail;
static struct kefir_ir_type *bf_type;
static int x_named[4], x_type[4], x_bits[4];
static kefir_ir_typecode_t irt(int t) {
    static const kefir_ir_typecode_t r[] = {KEFIR_IR_TYPE_BOOL, KEFIR_IR_TYPE_CHAR, KEFIR_IR_TYPE_CHAR, KEFIR_IR_TYPE_CHAR, KEFIR_IR_TYPE_SHORT, KEFIR_IR_TYPE_SHORT, KEFIR_IR_TYPE_INT, KEFIR_IR_TYPE_INT, KEFIR_IR_TYPE_LONG, KEFIR_IR_TYPE_LONG, KEFIR_IR_TYPE_LONG, KEFIR_IR_TYPE_LONG};
    return r[t];
}
static kefir_bool_t bf_has(struct kefir_ir_bitfield_allocator *a) { (void) a; return bf_run; }
static kefir_result_t bf_reset(struct kefir_ir_bitfield_allocator *a) { (void) a; bf_run = 0; return KEFIR_OK; }
static kefir_result_t bf_next(struct kefir_mem *m, struct kefir_ir_bitfield_allocator *a, kefir_size_t si, kefir_bool_t named, kefir_ir_typecode_t bt, uint8_t w, struct kefir_ir_typeentry *te, struct kefir_ir_bitfield *b) {
    int i = bf_calls++;
    (void) m; (void) a;
    VC_CHECK(si == 0 && named == x_named[i] && bt == irt(x_type[i]) && w == x_bits[i], "call-site precondition of kefir_ir_bitfield_allocator.next");
    bf_off[i] = ND8() & 63;
    bf_run = 1;
    b->offset = bf_off[i];
    b->width = w;
    te->typecode = KEFIR_IR_TYPE_BITS;
    te->alignment = named ? s_align(x_type[i]) : 0;
    te->param = (int64_t) (bf_tail = bf_param[i] = bf_off[i] + w);
    return KEFIR_OK;
}
static kefir_result_t bf_coloc(struct kefir_mem *m, struct kefir_ir_bitfield_allocator *a, kefir_bool_t named, kefir_ir_typecode_t bt, uint8_t w, struct kefir_ir_typeentry *te, struct kefir_ir_bitfield *b) {
    int i = bf_calls;
    (void) m; (void) a;
    VC_CHECK(bf_run && named == x_named[i] && bt == irt(x_type[i]) && w == x_bits[i] && te == kefir_ir_type_at(bf_type, kefir_ir_type_total_length(bf_type) - 1) && te->typecode == KEFIR_IR_TYPE_BITS,
             "call-site precondition of kefir_ir_bitfield_allocator.next_colocated");
    if (!(g_script >> i & 1)) return KEFIR_OUT_OF_SPACE;
    bf_calls++;
    b->offset = bf_off[i] = bf_tail;
    b->width = w;
    if (named && te->alignment < s_align(x_type[i])) te->alignment = s_align(x_type[i]);
    te->param = (int64_t) (bf_tail = bf_param[i] = bf_off[i] + w);
    return KEFIR_OK;
}
static kefir_result_t bf_free(struct kefir_mem *m, struct kefir_ir_bitfield_allocator *a) { (void) m; (void) a; return KEFIR_OK; }
static kefir_result_t bf_alloc(struct kefir_mem *m, struct kefir_ir_target_platform *p, struct kefir_ir_type *t, struct kefir_ir_bitfield_allocator *a) {
    (void) m; (void) p;
    bf_type = t;
    a->has_bitfield_run = bf_has; a->reset = bf_reset; a->next = bf_next; a->next_colocated = bf_coloc; a->free = bf_free;
    return KEFIR_OK;
}
/* struct { char p[n]; T0 [a]:w0; T1 b:w1; (int m;) T2 c:w2; short z; }, script: which join the previous run; mid: a member between */
static void bits(int script, int t0, int t1, int t2, bool n0, bool mid, bool un) {
    reset();
    plat.bitfield_allocator = bf_alloc;
    g_script = script;
    bf_calls = bf_run = 0;
    uint64_t n = ND32() | (uint64_t) ND8() << 32;
    int tt[3] = {t0, t1, t2};
    static const char *id[3] = {"a", "b", "c"};
    st_t *t = st_new(un);
    st_add(t, "p", arr(ty(T_CHAR), n, KEFIR_AST_ARRAY_BOUNDED), 0, -1);
    for (int i = 0; i < 3; i++) {
        x_named[i] = i > 0 || n0;
        x_type[i] = tt[i];
        int full = 8 * (int) s_align(tt[i]);
        x_bits[i] = tt[i] == T_BOOL ? 1 : (script / 2 + i) % 3 == 0 ? full : (script / 2 + i) % 3 == 1 ? full / 2 - 1 : 1; /* only handed on: unit bitfields has them symbolic */
        if (i == 2 && mid) st_add(t, "m", ty(T_SI), 0, -1);
        x_bf = 1;
        st_add(t, x_named[i] ? id[i] : NULL, ty(tt[i]), 0, x_bits[i]);
        x_bf = 0;
    }
    st_add(t, "z", ty(T_SS), 0, -1);
    type_is((const struct kefir_ast_type *) t);
    VC_CHECK(bf_calls == 3, "kefir_ast_translate_object_type: every bit-field gets storage once");
    uint64_t o = n, mo = 0, st[3], mx = n;
    unsigned al = 2;
    for (int i = 0; i < 3; i++) { /* psABI, given the allocator's answers */
        if (i == 2 && mid) { mo = un ? 0 : pad(o, 4); o = mo + 4; if (al < 4) al = 4; if (mx < 4) mx = 4; }
        bool join = i > 0 && !(i == 2 && mid) && !un && (script >> i & 1);
        if (join) st[i] = st[i - 1]; else st[i] = un ? 0 : o;
        o = st[i] + (bf_param[i] + 7) / 8;
        if (un && o > mx) mx = o;
        if (x_named[i] && al < s_align(tt[i])) al = s_align(tt[i]);
    }
    if (un) { if (mx < 2) mx = 2; }
    expect(NULL, 0, un ? pad(mx, al) : pad(pad(o, 2) + 2, al), al);
    dm_t z = d1("z"), m = d1("m");
    expect(&z, un ? 0 : pad(o, 2), 2, 2);
    if (mid) expect(&m, mo, 4, 4);
    struct kefir_ast_type_layout *root = ((struct kefir_ast_translator_environment_type *) opaque)->layout, *l;
    for (int i = 0; i < 3; i++)
        if (x_named[i]) {
            dm_t f = d1(id[i]);
            kefir_size_t off;
            VC_CHECK(kefir_ast_type_layout_resolve_offset(root, (const struct kefir_ast_designator *) &f, &l, &off) == KEFIR_OK, "kefir_ast_type_layout_resolve_offset: a bit-field that exists is found");
            VC_CHECK(off == st[i] && l->bitfield && l->bitfield_props.offset == bf_off[i] && l->bitfield_props.width == (kefir_size_t) x_bits[i],
                     "kefir_ast_translate_object_type: storage, position and width of a bit-field are the allocated ones");
        }
}
/* struct { char p[n]; T : 0; char z; } : a zero-width bit-field moves on to the next unit of its type */
static void zero_width(int t) {
    reset();
    uint64_t n = ND32() | (uint64_t) ND8() << 32;
    st_t *s = st_new(false);
    st_add(s, "p", arr(ty(T_CHAR), n, KEFIR_AST_ARRAY_BOUNDED), 0, -1);
    x_bf = 1;
    st_add(s, NULL, ty(t), 0, 0);
    x_bf = 0;
    st_add(s, "z", ty(T_CHAR), 0, -1);
    type_is((const struct kefir_ast_type *) s);
    dm_t z = d1("z");
    expect(&z, pad(n, s_align(t)), 1, 1);
}
/* struct { char p[n]; struct { char q; union { K e; char r; }; }; struct { char s; struct { K t; char v; } w[g_n]; } u[5]; } */
static void deep(int k) {
    reset();
    uint64_t n = ND32() | (uint64_t) ND8() << 32, sz = s_size(k);
    g_n = (ND8() & 3) | (uint64_t) (ND8() & 1) << 34;
    unsigned a = s_align(k);
    st_t *t = st_new(false), *in = st_new(false), *un = st_new(true), *u = st_new(false), *w = st_new(false);
    st_add(un, "e", mk(k), 0, -1);
    st_add(un, "r", ty(T_CHAR), 0, -1);
    st_add(in, "q", ty(T_CHAR), 0, -1);
    st_add(in, NULL, (const struct kefir_ast_type *) un, 0, -1);
    st_add(w, "t", mk(k), 0, -1);
    st_add(w, "v", ty(T_CHAR), 0, -1);
    st_add(u, "s", ty(T_CHAR), 0, -1);
    st_add(u, "w", arr((const struct kefir_ast_type *) w, g_n, KEFIR_AST_ARRAY_BOUNDED), 0, -1);
    st_add(t, "p", arr(ty(T_CHAR), n, KEFIR_AST_ARRAY_BOUNDED), 0, -1);
    st_add(t, NULL, (const struct kefir_ast_type *) in, 0, -1);
    st_add(t, "u", arr((const struct kefir_ast_type *) u, 5, KEFIR_AST_ARRAY_BOUNDED), 0, -1);
    type_is((const struct kefir_ast_type *) t);
    uint64_t su = sz, o = pad(n, a), sw = pad(sz + 1, a), s1 = a + sw * g_n, ou = o + a + su;
    expect(NULL, 0, ou + 5 * s1, a);
    dm_t e = d1("e"), r = d1("r"), q = d1("q"), du = d1("u"), dw = d1("w"), dv = d1("v"), dt = d1("t");
    expect(&q, o, 1, 1);
    expect(&e, o + a, sz, a);
    expect(&r, o + a, 1, 1);
    uint64_t i = ND8() & 3, j = (ND8() & 15) | (uint64_t) (ND8() & 15) << 33;
    di_t di = d1i(i), dj = d1i(j);
    di.next = &du; dw.next = &di; dj.next = &dw; dv.next = dt.next = &dj;
    expect(&du, ou, 5 * s1, a);
    expect(&di, ou + i * s1, s1, a);
    expect(&dw, ou + i * s1 + a, sw * g_n, a);
    expect(&dv, ou + i * s1 + a + j * sw + sz, 1, 1);
    expect(&dt, ou + i * s1 + a + j * sw, sz, a);
}
enum { M_DEEP = 6, M_ALONE = 0, M_STRUCT, M_UNION, M_ALIGN, M_BITS, M_ZERO };
static const int bt[9] = {T_BOOL, T_UC, T_CHAR, T_US, T_SS, T_UI, T_SI, T_UL, T_SL};
void harness(void) {
    static const int comp[] = {0, K_ARR, K_ST, K_UN, K_ANON, K_ARR2, K_FLEX};
    if (MODE == M_ALONE) for (int k = LO; k < HI; k++) alone(comp[CMP] + k);
    if (MODE == M_STRUCT) for (int k = LO; k < HI; k++) { member(comp[CMP] + k, 0, 0, false, comp[CMP] != K_FLEX); member(comp[CMP] + k, 32, 0, false, comp[CMP] != K_FLEX); }
    if (MODE == M_UNION) for (int k = LO; k < HI; k++) member(comp[CMP] + k, 0, 0, true, comp[CMP] != K_ANON);
    if (MODE == M_ALIGN) for (int k = LO; k < HI; k++) for (unsigned B = 1; B <= 4096; B *= 2) if (B >= s_align(k) && (B < 64 || B > 512 || B == 256)) { member(k, 0, B, (B & 0x92) != 0, true); if (B == 32) { member(K_ARR + k, 0, B, false, true); member(K_ST + k, 0, B, false, true); } }
    if (MODE == M_DEEP) for (int k = LO; k < HI; k++) deep(k);
    if (MODE == M_ZERO) zero_width(T_SI);
    if (MODE == M_BITS) for (int s = 0; s < 8; s += 2) { bits(s, bt[LO], bt[HI], bt[(LO + HI) % 9], true, false, false); bits(s, bt[LO], bt[HI], T_UI, false, false, false);
                                                         bits(s, bt[LO], bt[HI], T_SS, true, true, false); if (s == 0) bits(s, bt[LO], bt[HI], T_UL, LO & 1, false, true); }
    VC_REACH("end");
}
