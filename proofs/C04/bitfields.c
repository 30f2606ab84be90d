/* Contract of the System-V bit-field allocator (kefir_codegen_amd64_sysv_bitfield_allocator and the four operations it
 * installs): a bit-field lies in a properly aligned storage unit of its declared type, at the first bit position after what
 * precedes it where it does not cross such a unit's boundary. */
#define STUB_PAD
#include "layout.h"
static struct kefir_ir_typeentry ent[6];
static struct kefir_ir_type irt;
static struct kefir_ir_bitfield_allocator A;
static struct kefir_ir_bitfield bf;
static kefir_ir_typecode_t code(int cls, int alt) {
    static const kefir_ir_typecode_t r[4][3] = {{KEFIR_IR_TYPE_CHAR, KEFIR_IR_TYPE_BOOL, KEFIR_IR_TYPE_INT8}, {KEFIR_IR_TYPE_SHORT, KEFIR_IR_TYPE_INT16, KEFIR_IR_TYPE_SHORT},
                                                {KEFIR_IR_TYPE_INT, KEFIR_IR_TYPE_INT32, KEFIR_IR_TYPE_INT}, {KEFIR_IR_TYPE_LONG, KEFIR_IR_TYPE_WORD, KEFIR_IR_TYPE_INT64}};
    return r[cls][alt];
}
#define BITS(c) (8u << (c))
/* first position at or after cur for a bit-field of w bits of a type of sz bits */
static uint64_t place(uint64_t cur, unsigned sz, unsigned w) { return (cur & (sz - 1)) + w <= sz ? cur : (cur + (sz - 1)) & ~(uint64_t) (sz - 1); }
static void start(int prior, uint64_t P, kefir_ir_typecode_t agg, bool empty) {
    heap_reset();
    int n = 0;
    if (prior) { ent[n++] = (struct kefir_ir_typeentry){KEFIR_IR_TYPE_STRUCT, 0, 2}; ent[n++] = (struct kefir_ir_typeentry){KEFIR_IR_TYPE_INT16, 0, 0}; }
    ent[n++] = (struct kefir_ir_typeentry){agg, 0, empty ? 0 : 1};
    if (!empty) ent[n++] = (struct kefir_ir_typeentry){KEFIR_IR_TYPE_MEMORY, 0, (int64_t) P};
    irt.vector = (struct kefir_vector){.element_size = sizeof(ent[0]), .content = ent, .length = (kefir_size_t) n, .capacity = 6};
    VC_CHECK(kefir_codegen_amd64_sysv_bitfield_allocator(&vc_mem, &irt, &A) == KEFIR_OK, "kefir_codegen_amd64_sysv_bitfield_allocator succeeds");
    VC_CHECK(!A.has_bitfield_run(&A), "no bit-field run at the start");
}
static struct kefir_ir_typeentry te;
static void next(int si, uint64_t cur, int c, int alt, bool named, unsigned w) {
    n_dl = 0; /* whatever the call allocates is gone when it returns */
    te = (struct kefir_ir_typeentry){code(c, alt), 0, 0};
    kefir_result_t r = A.next(&vc_mem, &A, (kefir_size_t) si, named, code(c, alt), (uint8_t) w, &te, &bf);
    if (w == 0 || w > BITS(c)) { VC_CHECK(r != KEFIR_OK, "next: a bit-field wider than its type or of no width is refused"); return; }
    uint64_t s = place(cur, BITS(c), w);
    VC_CHECK(r == KEFIR_OK && A.has_bitfield_run(&A), "next: succeeds and starts a run");
    VC_CHECK(bf.offset == s - cur && bf.width == w, "next: the bit-field starts where the psABI puts it");
    VC_CHECK(te.typecode == KEFIR_IR_TYPE_BITS && (uint64_t) te.param == s + w - cur, "next: the storage reaches to the end of the bit-field");
    VC_CHECK(te.alignment == (named ? BITS(c) / 8 : 0), "next: a named bit-field imposes the alignment of its type, an unnamed one none");
}
/* after a run that ends at bit `tail` and began at `head` */
static bool coloc(uint64_t head, uint64_t tail, int c, int alt, bool named, unsigned w) {
    struct kefir_ir_typeentry old = te;
    kefir_result_t r = A.next_colocated(&vc_mem, &A, named, code(c, alt), (uint8_t) w, &te, &bf);
    if (w == 0 || w > BITS(c)) { VC_CHECK(r != KEFIR_OK && r != KEFIR_OUT_OF_SPACE, "next_colocated: a bit-field wider than its type or of no width is refused"); return false; }
    if (place(tail, BITS(c), w) != tail) {
        VC_CHECK(r == KEFIR_OUT_OF_SPACE && te.param == old.param && te.alignment == old.alignment && te.typecode == old.typecode, "next_colocated: a bit-field that would cross a storage unit does not join the run");
        return false;
    }
    VC_CHECK(r == KEFIR_OK && bf.offset == tail - head && bf.width == w, "next_colocated: the bit-field follows the one before without a gap");
    VC_CHECK(te.typecode == KEFIR_IR_TYPE_BITS && (uint64_t) te.param == tail + w - head, "next_colocated: the storage reaches to the end of the bit-field");
    VC_CHECK(te.alignment == (named && BITS(c) / 8 > old.alignment ? BITS(c) / 8 : old.alignment), "next_colocated: alignment");
    return true;
}
static void one(int prior, int c1, int c2, int c3, int alt) {
    uint64_t P = ND32(), cur = 8 * P;
    unsigned w1 = ND8(), w2 = ND8(), w3 = ND8();
    bool n1 = ND1(), n2 = ND1(), n3 = ND1();
    start(prior, P, KEFIR_IR_TYPE_STRUCT, false);
    int si = prior ? 2 : 0;
    next(si, cur, c1, alt, n1, w1);
    VC_ASSUME(w1 >= 1 && w1 <= BITS(c1));
    uint64_t tail = place(cur, BITS(c1), w1) + w1;
    if (coloc(cur, tail, c2, alt, n2, w2)) tail += w2;
    if (coloc(cur, tail, c3, alt, n3, w3)) tail += w3;
    /* a new storage entry after the run */
    kefir_size_t at = irt.vector.length++;
    ent[at] = (struct kefir_ir_typeentry){KEFIR_IR_TYPE_BITS, te.alignment, te.param}; /* the type code was checked above; written as a constant for the verifier */
    ent[si].param++;
    VC_CHECK(A.reset(&A) == KEFIR_OK && !A.has_bitfield_run(&A), "reset ends the run");
    VC_CHECK(A.next_colocated(&vc_mem, &A, true, code(c2, alt), 1, &te, &bf) != KEFIR_OK, "next_colocated: no run to join");
    next(si, (tail + 7) & ~(uint64_t) 7, c3, alt, n3, w3);
    VC_CHECK(A.free(&vc_mem, &A) == KEFIR_OK, "free");
}
void harness(void) {
    for (int c3 = 0; c3 < 4; c3++) { one(0, C1, C2, c3, c3 % 3); one(1, C1, C2, c3, (c3 + 1) % 3); }
    start(0, 0, KEFIR_IR_TYPE_STRUCT, true);
    next(0, 0, C1, 0, ND1(), ND8());
    start(0, ND32(), KEFIR_IR_TYPE_UNION, false);
    next(0, 0, C2, 1, ND1(), ND8());
    VC_REACH("end");
}
