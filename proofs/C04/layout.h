/* Surroundings of the layout computation: typed storage, and by contract the containers (vector, hash tree). */
#ifndef C04_LAYOUT_H_
#define C04_LAYOUT_H_
#include "vc.h"
#include "errstub.h"
#include "ctypes.h"
#include <string.h>
#include "kefir/ast/type.h"
#include "kefir/ast/type_layout.h"
#include "kefir/ast/designator.h"
#include "kefir/ast/alignment.h"
#include "kefir/ast-translator/environment.h"
#include "kefir/ast-translator/translator.h"
#include "kefir/codegen/amd64/system-v/platform.h"
#include "kefir/codegen/amd64/system-v/bitfields.h"
#include "kefir/codegen/amd64/system-v/abi/data_layout.h"
#include "kefir/ir/type.h"
#include "kefir/ir/builder.h"
#include "kefir/core/hashtree.h"
#include "kefir/core/vector.h"
static struct kefir_mem vc_mem;
/* kefir_ast_type_layout with its union replaced by the widest member (layout asserted): the verifier reads unions bytewise */
typedef struct {
    const struct kefir_ast_type_layout *parent;
    const struct kefir_ast_type *type;
    kefir_size_t alignment;
    kefir_uptr_t value;
    kefir_bool_t bitfield;
    struct { kefir_size_t offset, width; } bitfield_props;
    struct { kefir_bool_t valid; kefir_size_t size; kefir_size_t alignment; kefir_bool_t aligned; kefir_size_t relative_offset; } properties;
    struct kefir_ast_struct_type_layout structure_layout;
} lay_t;
_Static_assert(sizeof(lay_t) == sizeof(struct kefir_ast_type_layout) && __builtin_offsetof(lay_t, properties) == __builtin_offsetof(struct kefir_ast_type_layout, properties) &&
               __builtin_offsetof(lay_t, structure_layout) == __builtin_offsetof(struct kefir_ast_type_layout, structure_layout), "layout");
#define NL 24
/* separate objects, not elements of an array: pointers that pass through integers (hash tree values) keep their identity */
#define OBJ16(X, n) X(n, 0) X(n, 1) X(n, 2) X(n, 3) X(n, 4) X(n, 5) X(n, 6) X(n, 7) X(n, 8) X(n, 9) X(n, 10) X(n, 11) X(n, 12) X(n, 13) X(n, 14) X(n, 15)
#define DECL_lay(n, i) static lay_t p_lay##i;
#define DECL_list(n, i) static struct kefir_list p_list##i;
#define PICK(n, i) case i: return (void *) &p_##n##i;
OBJ16(DECL_lay, lay)
OBJ16(DECL_list, list)
static struct kefir_ast_type_layout_structure_member p_mem[NL];
static struct kefir_list_entry p_le[64];
static struct kefir_ast_translator_environment_type p_env[1];
static struct kefir_codegen_amd64_sysv_type p_st[2];
static struct { struct kefir_ir_type *t; kefir_bool_t b; kefir_size_t h, e; } p_bf[8];
static struct kefir_hashtree_node p_node[64];
static struct kefir_ir_typeentry p_ent[1][24];
static struct kefir_amd64_sysv_data_layout p_dl[8][24];
static int in_get_type; /* the two 40-byte types are told apart by who allocates */
static int n_lay, n_mem, n_le, n_list, n_env, n_st, n_bf, n_node, n_ent, n_dl;
#define POOL(a, T) if (sz == sizeof(T) && n_##a < (int) (sizeof(p_##a) / sizeof(p_##a[0]))) return (void *) &p_##a[n_##a++];
static void *p_malloc(struct kefir_mem *m, kefir_size_t sz) {
    (void) m;
    if (sz == sizeof(lay_t)) switch (n_lay++) { OBJ16(PICK, lay) }
    POOL(mem, struct kefir_ast_type_layout_structure_member)
    POOL(le, struct kefir_list_entry)
    if (sz == sizeof(struct kefir_list) && !in_get_type) switch (n_list++) { OBJ16(PICK, list) }
    POOL(env, struct kefir_ast_translator_environment_type)
    POOL(st, struct kefir_codegen_amd64_sysv_type)
    POOL(bf, p_bf[0])
    VC_CHECK(0, "allocator capacity of the harness");
    return NULL;
}
static void p_free(struct kefir_mem *m, void *p) { (void) m; (void) p; }
static void heap_reset(void) {
    n_lay = n_mem = n_le = n_list = n_env = n_st = n_bf = n_node = n_ent = n_dl = 0;
    vc_mem.malloc = p_malloc;
    vc_mem.free = p_free;
}
_Static_assert(sizeof(lay_t) != sizeof(struct kefir_list) && sizeof(p_bf[0]) != sizeof(struct kefir_list_entry), "pools");
/* vector contract (their own unit tests; assumed here): alloc/realloc give at least the capacity asked for, append stores at the end, at() addresses the element */
kefir_result_t kefir_vector_alloc(struct kefir_mem *mem, kefir_size_t es, kefir_size_t cap, struct kefir_vector *v) {
    VC_CHECK(mem == &vc_mem && es == sizeof(struct kefir_amd64_sysv_data_layout) && cap <= 24 && n_dl < 8, "call-site precondition of kefir_vector_alloc");
    *v = (struct kefir_vector){.element_size = es, .content = p_dl[n_dl++], .length = 0, .capacity = cap};
    return KEFIR_OK;
}
kefir_result_t kefir_vector_realloc(struct kefir_mem *mem, kefir_size_t cap, struct kefir_vector *v) {
    VC_CHECK(mem == &vc_mem && cap <= 4096 && v->length <= cap, "call-site precondition of kefir_vector_realloc");
    if (v->content == NULL) v->content = p_ent[n_ent++];
    v->element_size = sizeof(struct kefir_ir_typeentry);
    v->capacity = cap;
    return KEFIR_OK;
}
kefir_result_t kefir_vector_free(struct kefir_mem *mem, struct kefir_vector *v) { (void) mem; v->length = v->capacity = 0; v->content = NULL; return KEFIR_OK; }
kefir_result_t kefir_vector_append(struct kefir_vector *v, const void *x) {
    VC_CHECK(v->element_size == sizeof(struct kefir_ir_typeentry) && v->length < v->capacity && v->length < 24, "call-site precondition of kefir_vector_append");
    ((struct kefir_ir_typeentry *) v->content)[v->length++] = *(const struct kefir_ir_typeentry *) x;
    return KEFIR_OK;
}
/* hash tree contract (their own unit tests; assumed here): a finite map; keys compared as strings or as numbers */
kefir_result_t kefir_hashtree_init(struct kefir_hashtree *t, const struct kefir_hashtree_ops *ops) { t->ops = ops; t->root = NULL; t->node_remove.callback = NULL; return KEFIR_OK; }
kefir_result_t kefir_hashtree_on_removal(struct kefir_hashtree *t, kefir_result_t (*cb)(struct kefir_mem *, struct kefir_hashtree *, kefir_hashtree_key_t, kefir_hashtree_value_t, void *), void *d) {
    (void) t; (void) cb; (void) d;
    return KEFIR_OK;
}
kefir_result_t kefir_hashtree_free(struct kefir_mem *m, struct kefir_hashtree *t) { (void) m; t->root = NULL; return KEFIR_OK; }
static bool key_eq(const struct kefir_hashtree *t, kefir_hashtree_key_t a, kefir_hashtree_key_t b) {
    if (t->ops == &kefir_hashtree_str_ops) return ((const char *) a)[0] == ((const char *) b)[0]; /* member names of the harness differ in their first character */
    return a == b;
}
kefir_result_t kefir_hashtree_at(const struct kefir_hashtree *t, kefir_hashtree_key_t k, struct kefir_hashtree_node **out) {
    for (struct kefir_hashtree_node *n = t->root; n != NULL; n = n->left_child)
        if (key_eq(t, n->key, k)) { *out = n; return KEFIR_OK; }
    return KEFIR_NOT_FOUND;
}
kefir_result_t kefir_hashtree_insert(struct kefir_mem *m, struct kefir_hashtree *t, kefir_hashtree_key_t k, kefir_hashtree_value_t v) {
    struct kefir_hashtree_node *n;
    VC_CHECK(m == &vc_mem && n_node < 64, "call-site precondition of kefir_hashtree_insert");
    if (kefir_hashtree_at(t, k, &n) == KEFIR_OK) return KEFIR_ALREADY_EXISTS;
    n = &p_node[n_node++];
    n->key = k;
    n->value = v;
    n->left_child = t->root;
    t->root = n;
    return KEFIR_OK;
}
/* contract of kefir_codegen_pad_aligned (unit pad): the next multiple of a power-of-two alignment */
#ifdef STUB_PAD
kefir_size_t kefir_codegen_pad_aligned(kefir_size_t o, kefir_size_t a) {
    VC_CHECK((a & (a - 1)) == 0, "call-site precondition of kefir_codegen_pad_aligned");
    return a == 0 ? o : (o + (a - 1)) & ~(a - 1);
}
#endif
#endif
