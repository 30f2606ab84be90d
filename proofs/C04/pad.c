/* Contract of kefir_codegen_pad_aligned for every offset and every power-of-two alignment. */
#include "vc.h"
#include "errstub.h"
#include "kefir/codegen/util.h"
static unsigned g_k;
CONTRACT(kefir_size_t, kefir_codegen_pad_aligned, (kefir_size_t o, kefir_size_t a), (o, a), REQ(o < (uint64_t) -1 - 8192), FRAME(),
         ENS(a == 0 || (RET >= o && RET - o < a && (RET & (a - 1)) == 0)) ENS(a != 0 || RET == o))
void harness(void) {
    for (g_k = 0; g_k <= 12; g_k++) call_kefir_codegen_pad_aligned(ND64(), (kefir_size_t) 1 << g_k);
    call_kefir_codegen_pad_aligned(ND64(), 0);
    VC_REACH("end");
}
