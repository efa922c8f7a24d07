// B07: the views cover the whole text, also beyond 64 KiB (sizes; the contents are b_text's).
#include "vf.h"
#include "BufferedOut.h"
static char text[SIZE], src[SIZE];
void vf_harness()
{
    embedded::BufferedOut out(embedded::MemoryView<char>(text, SIZE));
    const size_t n = size_t(vf_range(0, SIZE));
    out << std::string_view(src, n);
    const embedded::BufferedOut& cout = out;
    vf_witness(n > 65535, "more than 64 KiB");
    vf_witness(n == SIZE, "full");
    vf_assert(out.capacity() == SIZE, "capacity");
    vf_assert(out.size() == n && out.data().size() == n && cout.data().size() == n && out.asStringView().size() == n, "sizes agree");
}
