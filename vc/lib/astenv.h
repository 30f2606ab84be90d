/* A minimal AST context for units over the constant evaluator / analyzer / translator: target environment by contract. */
#ifndef VC_ASTENV_H_
#define VC_ASTENV_H_
#include "ctypes.h"
#include "kefir/ast/context.h"
#include "kefir/ast/node.h"
#include "kefir/core/mem.h"

static uint64_t spec_sizeof(const struct kefir_ast_type *t) {
    switch (t->tag) {
        case KEFIR_AST_TYPE_SCALAR_BOOL:
        case KEFIR_AST_TYPE_SCALAR_CHAR:
        case KEFIR_AST_TYPE_SCALAR_UNSIGNED_CHAR:
        case KEFIR_AST_TYPE_SCALAR_SIGNED_CHAR: return 1;
        case KEFIR_AST_TYPE_SCALAR_UNSIGNED_SHORT:
        case KEFIR_AST_TYPE_SCALAR_SIGNED_SHORT: return 2;
        case KEFIR_AST_TYPE_SCALAR_UNSIGNED_INT:
        case KEFIR_AST_TYPE_SCALAR_SIGNED_INT:
        case KEFIR_AST_TYPE_ENUMERATION:
        case KEFIR_AST_TYPE_SCALAR_FLOAT: return 4;
        case KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE: return 16;
        default: return 8;
    }
}
/* contract of the target environment on scalar types: opaque handle = the type; size/alignment per System-V AMD64 */
static int g_env_live; /* handles obtained and not yet released */
static kefir_result_t env_get_type(struct kefir_mem *m, const struct kefir_ast_target_environment *e,
                                   const struct kefir_ast_type *t, kefir_ast_target_environment_opaque_type_t *o) {
    (void) m; (void) e;
    g_env_live++;
    *o = (void *) t;
    return KEFIR_OK;
}
static kefir_result_t env_free_type(struct kefir_mem *m, const struct kefir_ast_target_environment *e,
                                    kefir_ast_target_environment_opaque_type_t o) {
    (void) m; (void) e; (void) o;
    g_env_live--;
    return KEFIR_OK;
}
static kefir_result_t env_object_info(struct kefir_mem *m, const struct kefir_ast_target_environment *e,
                                      kefir_ast_target_environment_opaque_type_t o, const struct kefir_ast_designator *d,
                                      struct kefir_ast_target_environment_object_info *info) {
    (void) m; (void) e; (void) d;
    info->size = spec_sizeof((const struct kefir_ast_type *) o);
    info->alignment = info->size;
    return KEFIR_OK;
}
static kefir_result_t env_object_offset(struct kefir_mem *m, const struct kefir_ast_target_environment *e,
                                        kefir_ast_target_environment_opaque_type_t o, kefir_int64_t idx, kefir_int64_t *off) {
    (void) m; (void) e;
    *off = (kefir_int64_t) (spec_sizeof((const struct kefir_ast_type *) o) * (uint64_t) idx);
    return KEFIR_OK;
}
static struct kefir_ast_target_environment vc_env = {.get_type = env_get_type,
                                                     .free_type = env_free_type,
                                                     .object_info = env_object_info,
                                                     .object_offset = env_object_offset};
static struct kefir_ast_context_configuration vc_conf;
static struct kefir_ast_context vc_ctx;
static struct kefir_mem vc_mem; /* units that must not allocate leave its callbacks NULL */
static void vc_ctx_setup(void) {
    vc_traits_setup();
    vc_ctx.type_traits = &vc_traits;
    vc_ctx.target_env = &vc_env;
    vc_ctx.configuration = &vc_conf;
}
static void vc_expr(struct kefir_ast_node_base *n, const struct kefir_ast_type *t) {
    n->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
    n->properties.type = t;
    n->properties.expression_props.constant_expression = true;
}
#endif
