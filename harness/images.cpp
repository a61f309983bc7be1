// P34: an image that is written to a response is the image the client sees
#include "onh.hpp"
#include <png.h>
#include <jpeglib.h>
#include <setjmp.h>
extern "C" {
#include "onion/extras/png.h"
#include "onion/extras/jpeg.h"
}
using namespace onh; using mc::choose;
static Server *s; static std::function<int(onion_response *)> draw; static int said;
static void init() { if (!s) s = new Server([](onion_request *q, onion_response *r) { if (!strcmp(onion_request_get_path(q), "after")) { onion_response_write0(r, "after"); return (int)OCS_PROCESSED; } return said = draw(r); }); }
struct Img { int w, h, n; string px; };
static string show(const Img &i) { return mc::strf("%dx%d of %d bytes", i.w, i.h, i.n); }
// one answer to a request for it, and the next request of the same connection
static const char *REQ[] = {"GET /i HTTP/1.1\r\n\r\n", "GET /i HTTP/1.0\r\n\r\n", "HEAD /i HTTP/1.1\r\n\r\n", "GET /i HTTP/1.0\r\nConnection: Keep-Alive\r\n\r\n", "POST /i HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"};
static Resp ask(int req, const char *what) {
  Conn c(*s); said = -99; c.feed(REQ[req]); bool open = c.open, head = req == 2; Resp r = parse_response(c.out, 0, head, !open); if (!r.err.empty() || r.incomplete) fail("%s: the answer is not right: %s", what, r.err.c_str()); if (r.used != c.out.size()) fail("%s: there is something after the answer: %s", what, esc(c.out.substr(r.used, 100)).c_str());
  if (open) { c.out.clear(); c.feed("GET /after HTTP/1.1\r\n\r\n"); Resp a = parse_response(c.out, 0, false, !c.open); if (!a.err.empty() || a.body != "after" || a.used != c.out.size()) fail("%s: the next request is answered with %s", what, esc(c.out.substr(0, 200)).c_str()); } c.close(); return r;
}
static void balanced(const char *what, std::function<void()> f) { f(); size_t a = mc::live_bytes(); f(); size_t b = mc::live_bytes(); if (b > a) { f(); size_t c = mc::live_bytes(); f(); size_t d = mc::live_bytes(); if (c > b && d > c) fail("%s: %zu bytes are left each time", what, d - c); } }
static Img unpng(const string &b, const char *what) {
  png_image im; memset(&im, 0, sizeof im); im.version = PNG_IMAGE_VERSION; if (!png_image_begin_read_from_memory(&im, b.data(), b.size())) fail("%s: it is not an image (%s, %zu bytes)", what, im.message, b.size()); Img r; r.w = im.width; r.h = im.height; im.format &= ~PNG_FORMAT_FLAG_COLORMAP; r.n = PNG_IMAGE_SAMPLE_CHANNELS(im.format); if (im.format & PNG_FORMAT_FLAG_LINEAR) fail("%s: 16 bits", what); r.px.resize(PNG_IMAGE_SIZE(im)); if (!png_image_finish_read(&im, nullptr, &r.px[0], 0, nullptr) || im.warning_or_error) fail("%s: the image is broken (%s)", what, im.message); png_image_free(&im); return r;
}
static void one_png(const Img &i, bool bgr, int req, const char *what) {
  vector<unsigned char> data(i.px.begin(), i.px.end()); draw = [&](onion_response *r) { return onion_png_response(data.data(), bgr ? -i.n : i.n, i.w, i.h, r); }; Resp r = ask(req, what); if (r.code != 200) fail("%s: code %d", what, r.code); if (!r.get("Content-Type") || *r.get("Content-Type") != "image/png") fail("%s: the type is not image/png", what); if (said != OCS_PROCESSED) fail("%s: it says %d", what, said); if (string(data.begin(), data.end()) != i.px) fail("%s: the image of the user is changed", what); if (req == 2) return;
  Img g = unpng(r.body, what); if (g.w != i.w || g.h != i.h || g.n != i.n) fail("%s: the client sees %s", what, show(g).c_str()); string want = i.px; if (bgr && i.n >= 3) for (size_t k = 0; k + 2 < want.size(); k += i.n) std::swap(want[k], want[k + 2]); if (g.px != want) fail("%s: the pixels are different", what);
}
static string noise(size_t n, uint64_t x) { string r(n, 0); for (auto &c : r) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = x >> 56; } return r; }
static void pngs_small() { int n = 1 + choose(4), bgr = choose(2), w = 1 + choose(2), h = 1 + choose(2), req = choose(5); mc::shard(); static const unsigned char V[] = {0, 1, 128, 255}; int len = n * w * h, k = std::min(len, mc::thorough() ? 6 : 4); long all = 1; for (int i = 0; i < k; i++) all *= 4; for (long a = 0; a < all; a++) { Img i{w, h, n, string(len, '\x7f')}; long x = a; for (int j = 0; j < k; j++, x /= 4) i.px[(size_t)j * len / k] = V[x % 4]; string d = mc::strf("png %s%s, request %d, pixels %ld", show(i).c_str(), bgr ? " bgr" : "", req, a); mc::note("%s", d.c_str()); one_png(i, bgr, req, d.c_str()); mc::state(mc::hash(i.px.data(), i.px.size(), n * 100 + w * 10 + h)); } mc::outcome(mc::strf("%d %d %d %d %d", n, bgr, w, h, req)); }
static const int SZ[] = {1, 2, 3, 7, 8, 9, 16, 17, 31, 64, 100, 257};
static void pngs_sizes() { int n = 1 + choose(4), bgr = choose(2), w = choose(12), h = choose(12); mc::shard(); for (int req = 0; req < 5; req++) { Img i{SZ[w], SZ[h], n, noise((size_t)SZ[w] * SZ[h] * n, w * 100 + h)}; string d = mc::strf("png %s%s, request %d", show(i).c_str(), bgr ? " bgr" : "", req); mc::note("%s", d.c_str()); if (SZ[w] * SZ[h] < 5000) balanced(d.c_str(), [&] { one_png(i, bgr, req, d.c_str()); }); else one_png(i, bgr, req, d.c_str()); mc::state(mc::hash(d)); } mc::outcome(mc::strf("%d %d %d %d", n, bgr, w, h)); }
// tall and wide ones
static void pngs_big() { int k = choose(6), n = 1 + choose(4); mc::shard(); static const int W[] = {1, 3, 70000, 200000, 1, 1500}, H[] = {70000, 300000, 1, 1, 1000000, 1500}; Img i{W[k], H[k], n, string((size_t)W[k] * H[k] * n, 0)}; for (size_t j = 0; j < i.px.size(); j++) i.px[j] = j * 7 + (j >> 9); string d = "png " + show(i); mc::note("%s", d.c_str()); one_png(i, false, 0, d.c_str()); mc::outcome(d); }
// what is not an image is an error, and the server goes on
static void wrong() { static const int B[] = {0, 5, -5, 100, -100, 3, 3, 3, 3}, W[] = {2, 2, 2, 2, 2, 0, 2, -1, 2}, H[] = {2, 2, 2, 2, 2, 2, 0, 2, -1}; int k = choose(9), req = choose(5); mc::shard(); string d = mc::strf("png of %d bytes, %dx%d, request %d", B[k], W[k], H[k], req); mc::note("%s", d.c_str()); unsigned char px[2000]; memset(px, 7, sizeof px); draw = [&](onion_response *r) { return onion_png_response(px, B[k], W[k], H[k], r); }; balanced(d.c_str(), [&] { Resp r = ask(req, d.c_str()); if (r.code != 500) fail("%s: code %d", d.c_str(), r.code); }); mc::outcome(d); }
// ---- jpeg
struct Err { jpeg_error_mgr pub; jmp_buf j; string m; }; static void jerr(j_common_ptr c) { Err *e = (Err *)c->err; char b[JMSG_LENGTH_MAX]; c->err->format_message(c, b); e->m = b; longjmp(e->j, 1); } static void jquiet(j_common_ptr) {}
static Img unjpeg(const string &b, const char *what, J_COLOR_SPACE out) { jpeg_decompress_struct c; Err e; c.err = jpeg_std_error(&e.pub); e.pub.error_exit = jerr; e.pub.output_message = jquiet; Img r; if (setjmp(e.j)) fail("%s: it is not an image (%s, %zu bytes)", what, e.m.c_str(), b.size()); jpeg_create_decompress(&c); jpeg_mem_src(&c, (const unsigned char *)b.data(), b.size()); jpeg_read_header(&c, TRUE); c.out_color_space = out; jpeg_start_decompress(&c); r.w = c.output_width; r.h = c.output_height; r.n = c.output_components; r.px.resize((size_t)r.w * r.h * r.n); while (c.output_scanline < c.output_height) { JSAMPROW row = (JSAMPROW)&r.px[(size_t)c.output_scanline * r.w * r.n]; jpeg_read_scanlines(&c, &row, 1); } jpeg_finish_decompress(&c); size_t left = c.src->bytes_in_buffer; long w = e.pub.num_warnings; jpeg_destroy_decompress(&c); if (w) fail("%s: the image is broken", what); if (left) fail("%s: %zu bytes after the image", what, left); return r; }
static J_COLOR_SPACE SPACE[] = {JCS_UNKNOWN, JCS_GRAYSCALE, JCS_UNKNOWN, JCS_RGB, JCS_CMYK};
// what libjpeg gives for it
static string tojpeg(const Img &i, int q) { jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); unsigned char *m = nullptr; unsigned long n = 0; jpeg_mem_dest(&c, &m, &n); c.image_width = i.w; c.image_height = i.h; c.input_components = i.n; c.in_color_space = SPACE[i.n]; jpeg_set_defaults(&c); jpeg_set_quality(&c, q, TRUE); jpeg_start_compress(&c, TRUE); while (c.next_scanline < c.image_height) { JSAMPROW row = (JSAMPROW)&i.px[(size_t)c.next_scanline * i.w * i.n]; jpeg_write_scanlines(&c, &row, 1); } jpeg_finish_compress(&c); jpeg_destroy_compress(&c); string r((char *)m, n); free(m); return r; }
static void one_jpeg(const Img &i, int q, int req, int tol, const char *what) {
  vector<unsigned char> data(i.px.begin(), i.px.end()); draw = [&](onion_response *r) { return onion_jpeg_response(data.data(), i.n, SPACE[i.n], i.w, i.h, q, r); }; Resp r = ask(req, what); if (r.code != 200) fail("%s: code %d", what, r.code); if (!r.get("Content-Type") || *r.get("Content-Type") != "image/jpeg") fail("%s: the type is not image/jpeg", what); if (said != OCS_PROCESSED) fail("%s: it says %d", what, said); if (req == 2) return;
  Img g = unjpeg(r.body, what, SPACE[i.n]); if (g.w != i.w || g.h != i.h || g.n != i.n) fail("%s: the client sees %s", what, show(g).c_str()); for (size_t k = 0; k < g.px.size(); k++) if (abs((int)(unsigned char)g.px[k] - (int)(unsigned char)i.px[k]) > tol) fail("%s: byte %zu is %d instead of %d", what, k, (unsigned char)g.px[k], (unsigned char)i.px[k]);
  if (unjpeg(tojpeg(i, q), "the reference", SPACE[i.n]).px != g.px) fail("%s: it is not the image that libjpeg makes of it", what);
}
static Img blocks(int w, int h, int n, int seed) { Img i{w, h, n, ""}; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int c = 0; c < n; c++) { unsigned v = (x / 16 * 7 + y / 16 * 13 + c * 5 + seed) * 2654435761u; i.px += (char)(v >> 24); } return i; }
static void jpegs() { int ni = choose(3), w = choose(12), h = choose(12), kind = choose(2); mc::shard(); int n = ni == 0 ? 1 : ni == 1 ? 3 : 4; for (int req = 0; req < 5; req++) for (int q : {100, 90}) { Img i = kind == 0 ? blocks(SZ[w], SZ[h], n, w + h) : Img{SZ[w], SZ[h], n, noise((size_t)SZ[w] * SZ[h] * n, w * 100 + h)}; string d = mc::strf("jpeg %s, %s, quality %d, request %d", show(i).c_str(), kind ? "noise" : "blocks", q, req); mc::note("%s", d.c_str()); int tol = q == 100 && n == 1 ? 4 : 255; if (SZ[w] * SZ[h] < 2000) balanced(d.c_str(), [&] { one_jpeg(i, q, req, tol, d.c_str()); }); else one_jpeg(i, q, req, tol, d.c_str()); mc::state(mc::hash(d)); } mc::outcome(mc::strf("%d %d %d %d", n, w, h, kind)); }
static void wrong_jpegs() { static const int C[] = {1, 3, 3, 3, 4, 1, 0, 3}, W[] = {2, 0, 2, 2, 2, 2, 2, 70000}, H[] = {2, 2, 0, 2, 2, 70000, 2, 1}; static const J_COLOR_SPACE S[] = {JCS_RGB, JCS_RGB, JCS_RGB, JCS_GRAYSCALE, JCS_RGB, JCS_GRAYSCALE, JCS_UNKNOWN, JCS_RGB}; int k = choose(8), req = choose(5); mc::shard(); string d = mc::strf("jpeg of %d components in space %d, %dx%d, request %d", C[k], S[k], W[k], H[k], req); mc::note("%s", d.c_str()); vector<unsigned char> px(300000, 7); draw = [&](onion_response *r) { return onion_jpeg_response(px.data(), C[k], S[k], W[k], H[k], 90, r); }; balanced(d.c_str(), [&] { Resp r = ask(req, d.c_str()); if (r.code != 500) fail("%s: code %d", d.c_str(), r.code); }); mc::outcome(d); }
// the client goes away after any number of writes
static void gone() { int kind = choose(6), n = choose(2), at = choose(mc::thorough() ? 60 : 24), e = choose(2); mc::shard(); int ch = n ? 3 : 1; Img i{100, 100, ch, noise(30000, 5)}; vector<unsigned char> data(i.px.begin(), i.px.end()); bool jpeg = kind >= 3; string d = mc::strf("%s, request %d, the client goes away at write %d", jpeg ? "jpeg" : "png", kind % 3, at); mc::note("%s", d.c_str()); draw = [&](onion_response *r) { return jpeg ? onion_jpeg_response(data.data(), ch, SPACE[ch], 100, 100, 90, r) : onion_png_response(data.data(), ch, 100, 100, r); }; balanced(d.c_str(), [&] { Conn c(*s); int w = 0; c.on_write = [&](const char *, size_t l) -> ssize_t { return w++ < at ? l : e ? 0 : -1; }; c.feed(REQ[kind % 3]); c.close(); }); Resp r = ask(kind % 3, "after it"); if (r.code != 200) fail("%s: the next one has code %d", d.c_str(), r.code); mc::outcome(d); }
// part of the text before the image
static void mixed() { int jpeg = choose(2), pre = choose(6), req = choose(5); mc::shard(); static const int P[] = {0, 1, 100, 1499, 1500, 4000}; Img i = blocks(40, 30, 3, 1); vector<unsigned char> data(i.px.begin(), i.px.end()); string t(P[pre], '-'); string d = mc::strf("%s after %d bytes, request %d", jpeg ? "jpeg" : "png", P[pre], req); mc::note("%s", d.c_str()); draw = [&](onion_response *r) { onion_response_set_header(r, "X-Before", "1"); int a = jpeg ? onion_jpeg_response(data.data(), 3, JCS_RGB, 40, 30, 100, r) : onion_png_response(data.data(), 3, 40, 30, r); onion_response_write(r, t.data(), t.size()); return a; }; Resp r = ask(req, d.c_str()); if (r.code != 200 || !r.get("X-Before")) fail("%s: %d", d.c_str(), r.code); if (req == 2) return; if (r.body.size() < t.size() || r.body.substr(r.body.size() - t.size()) != t) fail("%s: what was written after it is lost", d.c_str()); string b = r.body.substr(0, r.body.size() - t.size()); Img g = jpeg ? unjpeg(b, d.c_str(), JCS_RGB) : unpng(b, d.c_str()); if (g.w != 40 || g.h != 30) fail("%s: %s", d.c_str(), show(g).c_str()); mc::outcome(d); }
int main(int c, char **v) {
  mc::rule("Real image functions over the real response, seen with the decoders of libpng and libjpeg. PNG: all images of up to 2x2 with 4 values in up to 4 (6) samples, and 144 sizes with noise, of 1 to 4 bytes in both orders, in 5 requests; tall and wide ones; JPEG: 144 sizes of 1, 3 and 4 components; what is not an image; clients that go away at each of the first 24 (60) writes. Distinct: images.");
  mc::assume("JPEG loses: grey images of quality 100 come back within 4 of 255, and all are compared with what libjpeg makes of the same image.");
  mc::add("small png", pngs_small, true, init); mc::add("sizes of png", pngs_sizes, true, init, 60); mc::add("big png", pngs_big, true, init, 120); mc::add("not a png", wrong, true, init); mc::add("jpeg", jpegs, true, init, 60); mc::add("not a jpeg", wrong_jpegs, true, init); mc::add("clients that go away", gone, true, init); mc::add("image and text", mixed, true, init);
  return mc::main(c, v);
}
