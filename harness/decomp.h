// Stand-in for the EUMETSAT decompression library, which is not available here: records what it is asked to decode
// and writes sample k as (first octet of the data) + 3 * k.
#pragma once
#include <msat/hrit/MSG_data_image.h>
struct DecodeRequest { size_t len; int nx, ny, bpp; unsigned format; int calls; };
static DecodeRequest decode_request;
void MSG_data_image_encoded::decode(MSG_data_image* dec)
{
    decode_request.len = len; decode_request.nx = nx; decode_request.ny = ny; decode_request.bpp = bpp; decode_request.format = (unsigned)format; ++decode_request.calls;
    size_t n = (size_t)nx * ny; dec->data = new MSG_SAMPLE[n]; dec->len = n;
    for (size_t i = 0; i < n; ++i) dec->data[i] = (MSG_SAMPLE)((len ? data[0] : 0) + 3 * i);
}
std::ostream& operator<<(std::ostream& os, MSG_data_image& i) { return os << i.len << std::endl; }
