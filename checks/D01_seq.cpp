// A user of the compatibility names of SequenceNumber, built as a library of its own: what it needs from elsewhere has to be
// found when it is loaded.
#include <icl_core/tSequenceNumber.h>
typedef icl_core::SequenceNumber<int, 5> A;
typedef icl_core::SequenceNumber<uint8_t, 250, 3, 7> B;
typedef icl_core::SequenceNumber<int64_t, 4000000000000ll, -4> C;
typedef icl_core::tSequenceNumber<int, 5> D;
extern "C" void names(long long* out, long long* current)
{
  out[0] = A::MaxValue(); out[1] = A::MinValue(); out[2] = B::MaxValue(); out[3] = B::MinValue(); out[4] = C::MaxValue(); out[5] = C::MinValue(); out[6] = D::MaxValue(); out[7] = D::MinValue();
  current[0] = A::maxValue(); current[1] = A::minValue(); current[2] = B::maxValue(); current[3] = B::minValue(); current[4] = C::maxValue(); current[5] = C::minValue(); current[6] = D::maxValue(); current[7] = D::minValue();
}
