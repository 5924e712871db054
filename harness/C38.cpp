// C38: the library built for a 32-bit target. The harnesses named below are built and explored once more as 32-bit
// executables (their spaces are prefixed with the property id); the spaces of this file add what only depends on the
// width of size_t. Skipped where the 32-bit runtime libraries are not installed.
// TARGET: m32
// RUN32: C03 C05 C08 C09/positions C09/fee-mixes C09/fee-bits C09/fee-counts C09/fee-unknown C09/change C09/change-account-key C09/change-pushes C09/change-multisig C09/change-script-bits C10 C13 C14 C15 C16 C26 C29 C30 C31 C32 C34 C35 C11/huge C11/wrapped C25/sign C23/scalar C20/numbers C24 C12/api
// RUN32-THOROUGH: C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C34 C35
#include "lib.h"
// sizes of the encodings of every length, in both directions, at every output size that could be taken for sufficient
static void sizes() { size_t n = choose(thorough ? 1200 : 400); int pat = choose(3); bytes d = pat == 0 ? repeat(n, 3) : bytes(n, pat == 1 ? 0xff : 0); if (pat == 2 && n) d[n - 1] = 1; Exact e(d); std::string ctx = fmt("%zu bytes pattern %d", n, pat);
  eq(std::string(toHex(e.p, e.n)), ref::hex(d), "hex", ctx); eq(std::string(toBase64(e.p, e.n)), ref::b64(d), "base64", ctx); if (n <= 400) eq(std::string(toBase58(e.p, e.n)), ref::b58(d), "base58", ctx); state(ref::fnv(d)); outcome("size"); step(3); }
static void target() { eqn(sizeof(size_t), 4, "target"); outcome("target"); state(1); step(); }
void define_spaces() { space("target", 0, [] { target(); }); space("sizes", 1, [] { sizes(); }); }
