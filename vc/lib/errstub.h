/* Contract of the diagnostics entry points, used at call sites: they return the code they are given.
 * (kefir_set_error / kefir_set_source_error are themselves proved against this contract in assumed.) */
#ifndef VC_ERRSTUB_H_
#define VC_ERRSTUB_H_
#include "kefir/core/error.h"
#include "kefir/core/source_error.h"
#include <stdarg.h>
kefir_result_t kefir_set_error(kefir_result_t code, const char *m, const char *f, unsigned int l, struct kefir_error **p) {
    (void) m; (void) f; (void) l;
    if (p) *p = 0;
    return code;
}
kefir_result_t kefir_set_errorf(kefir_result_t code, const char *m, const char *f, unsigned int l, struct kefir_error **p, ...) {
    (void) m; (void) f; (void) l;
    if (p) *p = 0;
    return code;
}
kefir_result_t kefir_set_source_error(kefir_result_t code, const struct kefir_source_location *loc, const char *m,
                                      const char *f, unsigned int l, struct kefir_error **p) {
    (void) loc; (void) m; (void) f; (void) l;
    if (p) *p = 0;
    return code;
}
kefir_result_t kefir_set_source_errorf(kefir_result_t code, const struct kefir_source_location *loc, const char *m,
                                       const char *f, unsigned int l, struct kefir_error **p, ...) {
    (void) loc; (void) m; (void) f; (void) l;
    if (p) *p = 0;
    return code;
}
#endif
