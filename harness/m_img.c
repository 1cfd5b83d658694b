// images as answers: libpng and libjpeg are stand-ins that read the rows they are given, put out bytes in any pieces and may fail anywhere
#define OUTMAX 16384
#include "req.h"
#include "util.h"
#include "client.h"
#include <stdio.h>
#include <setjmp.h>
#include <onion/codecs.h>
#if JPEG
#include <onion/extras/jpeg.h>
#else
#include <png.h>
#include <onion/extras/png.h>
#endif
static unsigned char *img; static int W, H, BPP; static size_t isz; static int huge_;
static unsigned char enc[OUTMAX]; static size_t encn; static int begun;   // what the encoder put out
static int fault, alive; static int wfails, wcalls, wfailed;   // fault: where the encoder fails; wfails: the write that fails
static ssize_t netw(onion_request *r, const char *d, size_t n) { if (++wcalls == wfails) { wfailed = 1; return -1; } if (wfailed) return -1; return rec_write(r, d, n); }
enum { F_NONE, F_CREATE, F_INFO, F_SET, F_START, F_MIDDLE, F_END, F_N };
static int pieces; static int piece(size_t left) { if (left < 2 || huge_ || ++pieces > 4) return left; int k = sym_pick(0, 2, "piece"); return k == 0 ? left : k == 1 ? 1 : left - 1; }
#if !JPEG
struct png_struct_def { png_error_ptr ef, wf; void *io; png_rw_ptr wfn; png_flush_ptr ffn; int bgr, ihdr; png_bytepp rows; int jset; jmp_buf jb; }; struct png_info_def { int x; };
static png_structp P; static png_infop I_;
static void raise_(png_structp p, const char *m) { if (p->ef) p->ef(p, m); CHECK(p->jset, "image: an error of the encoder ends the process"); if (!p->jset) sym_stop(); longjmp(p->jb, 1); }
void vf_png_error(png_const_structrp p, png_const_charp m) { raise_((png_structp)p, m); abort(); }
png_structp vf_png_create_write_struct(png_const_charp v, png_voidp ep, png_error_ptr e, png_error_ptr w) { CHECK(!P, "image: two encoders"); if (fault == F_CREATE) return NULL; P = calloc(1, sizeof *P); P->ef = e; P->wf = w; alive++; return P; }
png_infop vf_png_create_info_struct(png_const_structrp p) { if (fault == F_INFO) return NULL; I_ = calloc(1, sizeof *I_); alive++; return I_; }
void vf_png_destroy_write_struct(png_structpp p, png_infopp i) { CHECK(p && *p == P && P, "image: encoder released twice"); if (i && *i) { CHECK(*i == I_, "image: info released twice"); free(I_); I_ = NULL; *i = NULL; alive--; } free(P); P = NULL; *p = NULL; alive--; }
void vf_png_set_write_fn(png_structrp p, png_voidp io, png_rw_ptr w, png_flush_ptr f) { p->io = io; p->wfn = w; p->ffn = f; }
png_voidp vf_png_get_io_ptr(png_const_structrp p) { return p->io; }
void vf_png_set_bgr(png_structrp p) { p->bgr = 1; }
jmp_buf *vf_png_set_longjmp_fn(png_structrp p, png_longjmp_ptr f, size_t n) { p->jset = 1; return &p->jb; }
void vf_png_set_IHDR(png_const_structrp p_, png_inforp i, png_uint_32 w, png_uint_32 h, int d, int c, int il, int co, int fi) { png_structp p = (png_structp)p_; int b = BPP < 0 ? -BPP : BPP; if (w == 0 || h == 0 || w > 1000000 || h > 1000000) raise_(p, "Invalid IHDR data"); if (fault == F_SET) raise_(p, "no");
  CHECK(w == W && h == H && d == 8 && il == 0 && co == 0 && fi == 0, "image: another size or kind of image"); CHECK(c == (b == 1 ? PNG_COLOR_TYPE_GRAY : b == 2 ? PNG_COLOR_TYPE_GRAY_ALPHA : b == 3 ? PNG_COLOR_TYPE_RGB : b == 4 ? PNG_COLOR_TYPE_RGB_ALPHA : -1), "image: another kind of pixels"); CHECK(p->bgr == (BPP < 0), "image: colours swapped"); p->ihdr = 1; }
void vf_png_set_rows(png_const_structrp p, png_inforp i, png_bytepp r) { ((png_structp)p)->rows = r; }
static void put(png_structp p, const unsigned char *d, size_t n) { while (n) { size_t k = piece(n); begun = 1; memcpy(enc + encn, d, k); encn += k; p->wfn(p, (png_bytep)d, k); d += k; n -= k; } }
void vf_png_write_png(png_structrp p, png_inforp i, int t, png_voidp q) { int b = BPP < 0 ? -BPP : BPP; if (fault == F_START) raise_(p, "no"); CHECK(p->ihdr && p->rows && t == 0, "image: written before it is described"); put(p, (const unsigned char *)"\x89PNG\r\n", 6);
  for (int y = 0; y < H; y++) { if (fault == F_MIDDLE && y == H / 2) raise_(p, "no"); if (huge_) CHECK(p->rows[y] == img + (size_t)y * W * b, "image: wrong row"); else put(p, p->rows[y], (size_t)W * b); } if (fault == F_END) raise_(p, "no"); put(p, (const unsigned char *)"IEND", 4); if (p->ffn) p->ffn(p); }
static int bad(void) { return BPP == 0 || BPP > 4 || BPP < -4 || W <= 0 || H <= 0; }
#else
static struct jpeg_compress_struct *C; static void *cmem; static int state, quality, given_q, cs;
static void fmt(j_common_ptr c, char *b) { strcpy(b, "no"); } static void dflt(j_common_ptr c) { CHECK(0, "image: an error of the encoder ends the process"); sym_stop(); }
struct jpeg_error_mgr *vf_jpeg_std_error(struct jpeg_error_mgr *e) { memset(e, 0, sizeof *e); e->error_exit = dflt; e->format_message = fmt; return e; }
static void fail(j_compress_ptr c) { c->err->error_exit((j_common_ptr)c); abort(); }
void vf_jpeg_CreateCompress(j_compress_ptr c, int v, size_t n) { CHECK(n == sizeof *c && v == JPEG_LIB_VERSION, "image: encoder made for something else"); struct jpeg_error_mgr *e = c->err; void *d = c->client_data; c->mem = NULL; if (fault == F_CREATE) fail(c); memset(c, 0, sizeof *c); c->err = e; c->client_data = d; C = c; cmem = malloc(8); c->mem = cmem; alive++; if (fault == F_INFO) fail(c); }
void vf_jpeg_destroy_compress(j_compress_ptr c) { if (c->mem) { CHECK(c->mem == cmem, "image: encoder released twice"); free(cmem); cmem = NULL; alive--; } c->mem = NULL; }
void vf_jpeg_set_defaults(j_compress_ptr c) { if (fault == F_SET) fail(c); state = 1; } void vf_jpeg_set_quality(j_compress_ptr c, int q, boolean f) { given_q = q; CHECK(f, "image: not baseline"); }
static int emit(j_compress_ptr c, unsigned char b) { struct jpeg_destination_mgr *d = c->dest; *d->next_output_byte++ = b; begun = 1; if (--d->free_in_buffer == 0) if (!d->empty_output_buffer(c)) return 0; return 1; }
static void out(j_compress_ptr c, const char *s, size_t n) { for (size_t i = 0; i < n; i++) { if (encn < OUTMAX) enc[encn++] = s[i]; if (!emit(c, s[i])) fail(c); } }
void vf_jpeg_start_compress(j_compress_ptr c, boolean all) { CHECK(state == 1 && all, "image: started before it is described"); c->dest->init_destination(c); if (c->image_width == 0 || c->image_height == 0) fail(c); if (c->image_width > 65500 || c->image_height > 65500) fail(c); if (c->in_color_space == JCS_GRAYSCALE ? c->input_components != 1 : c->input_components != 3) fail(c);
  CHECK(c->image_width == W && c->image_height == H && c->input_components == BPP && c->in_color_space == cs, "image: another size or kind of image"); CHECK(given_q == quality, "image: another quality"); c->next_scanline = 0; if (fault == F_START) fail(c); out(c, "\xff\xd8JF", 4); state = 2; }
static size_t emitted;
JDIMENSION vf_jpeg_write_scanlines(j_compress_ptr c, JSAMPARRAY r, JDIMENSION n) { CHECK(state == 2 && n == 1, "image: lines before the start"); if (fault == F_MIDDLE && (int)c->next_scanline == H / 2) fail(c); JOCTET *sn = c->dest->next_output_byte; size_t sf = c->dest->free_in_buffer; size_t se = encn;
  if (huge_) CHECK(r[0] == img + (size_t)c->next_scanline * W * BPP, "image: wrong row"); else { size_t rb = (size_t)W * BPP; for (size_t i = 0; i < rb; i++) { if (encn < OUTMAX) enc[encn++] = r[0][i]; if (!emit(c, r[0][i])) { c->dest->next_output_byte = sn; c->dest->free_in_buffer = sf; encn = se; return 0; } } } c->next_scanline++; return 1; }
void vf_jpeg_finish_compress(j_compress_ptr c) { if (c->next_scanline < c->image_height) fail(c); if (fault == F_END) fail(c); out(c, "\xff\xd9", 2); c->dest->term_destination(c); state = 3; }
static int bad(void) { return W <= 0 || H <= 0 || W > 65500 || H > 65500 || (cs == JCS_GRAYSCALE ? BPP != 1 : BPP != 3); }
#endif
static int answer_(onion_response *res) {
#if JPEG
  return onion_jpeg_response(img, BPP, cs, W, H, quality, res);
#else
  return onion_png_response(img, BPP, W, H, res);
#endif
}
static char pad[1600];
void harness(void) {
  warm(); int head = sym_pick(0, 1, "head"), old = sym_pick(0, 2, "version"); onion_request *r = mkreq(); r->flags |= (head ? OR_HEAD : OR_GET) | (old == 1 ? 0 : OR_HTTP11); r->fullpath = onion_low_strdup("/"); r->GET = onion_dict_new(); onion_request_polish(r); if (old == 2) onion_dict_add(r->headers, "Connection", "close", 0);
  static const int dims[][2] = DIMS; int d = sym_pick(0, sizeof dims / sizeof *dims - 1, "size"); W = dims[d][0]; H = dims[d][1];
#if JPEG
  static const int bp[] = BPPS; BPP = bp[sym_pick(0, sizeof bp / sizeof *bp - 1, "bytes")]; cs = sym_pick(0, 1, "gray") ? JCS_GRAYSCALE : JCS_RGB; quality = sym_u8("quality");
#else
  static const int bp[] = BPPS; BPP = bp[sym_pick(0, sizeof bp / sizeof *bp - 1, "bytes")];
#endif
  int b = BPP < 0 ? -BPP : BPP; huge_ = W > 65000 || (long)W * H > 100000; isz = W > 0 && H > 0 && !huge_ ? (size_t)W * H * b : 0; if (!huge_) { img = malloc(isz ? isz : 1); for (size_t i = 0; i < isz; i++) img[i] = i * 31 + 7; if (isz) sym_make(img, isz < 4 ? isz : 4, "pixels"); if (isz > 8) sym_make(img + isz - 2, 2, "last pixels"); } else img = (unsigned char *)0x7000000000ul;
  if (FAULTS) fault = sym_pick(0, F_N - 1, "fault"); 
  onion_response *res = onion_response_new(r);
#if PADS   // headers that end close to the end of the internal buffer
  { onion_request *r2 = mkreq(); r2->flags = r->flags & ~OR_METHODS | OR_HEAD; r2->fullpath = onion_low_strdup("/"); r2->GET = onion_dict_new(); onion_request_polish(r2); if (old == 2) onion_dict_add(r2->headers, "Connection", "close", 0); onion_response *q = onion_response_new(r2); onion_response_set_header(q, "Content-Type", JPEG ? "image/jpeg" : "image/png"); onion_response_set_header(q, "X-Pad", ""); onion_response_write_headers(q); size_t hl = out_len; onion_response_free(q); onion_request_free(r2); out_len = 0; size_t pn = sizeof res->buffer - hl + sym_pick(-2, 1, "pad"); memset(pad, 'p', pn); pad[pn] = 0; onion_response_set_header(res, "X-Pad", pad); sym_reach("padded"); }
#endif
  the_lp.write = netw; if (NETF) wfails = sym_pick(0, 4, "write that fails");
  int st = answer_(res), wrong = bad() || fault; size_t at = encn;
  CHECK(alive == 0, "image: the encoder is not released");
  if (st == OCS_INTERNAL_ERROR || st == OCS_NOT_PROCESSED) CHECK(!(res->flags & OR_HEADER_SENT) && out_len == 0 && !wfailed, "image: given up after the answer has begun");
  else CHECK(st == OCS_PROCESSED || st == OCS_CLOSE_CONNECTION, "image: another verdict");
  if (st == OCS_INTERNAL_ERROR || st == OCS_NOT_PROCESSED) { CHECK(wrong, "image: a good image is not sent"); onion_dict_free(res->headers); onion_low_free(res); sym_reach("refused"); }
  else { int fr = onion_response_free(res); 
    if (wfailed) { CHECK(fr == OCS_CLOSE_CONNECTION, "image: the connection goes on after a failed write"); sym_reach("write failed"); }
    else { answer a = client(out_buf, out_len, head); CHECK(a.ok && a.used == out_len, "image: not a valid answer"); int code = (out_buf[9] - '0') * 100 + (out_buf[10] - '0') * 10 + out_buf[11] - '0';
      if (head) { CHECK(out_len == a.head, "image: content for HEAD"); sym_reach("head"); }
      else if (!wrong) { CHECK(code == 200, "image: another status"); CHECK(a.blen == encn && eqn(a.body, (char *)enc, encn), "image: other bytes than those of the encoder"); 
        int tl = 0; for (size_t i = 0; i + 20 < a.head; i++) tl += !memcmp(out_buf + i, JPEG ? "Content-Type: image/jpeg\r" : "Content-Type: image/png\r", JPEG ? 25 : 24); CHECK(tl == 1, "image: not the type of the image"); sym_reach("sent"); if (huge_) sym_reach("huge"); else CHECK(encn == isz + (JPEG ? 6 : 10), "image: not all the lines were encoded"); }
      else if (!begun) { CHECK(code == 500, "image: an encoder error is answered as success"); sym_reach("error"); }
      else if (code != 500) { CHECK(a.blen <= encn && eqn(a.body, (char *)enc, a.blen), "image: other bytes than those of the encoder"); sym_reach("cut"); } } }
  the_lp.write = rec_write; if (!huge_) free(img); onion_request_free(r); CHECK(sym_heap_live() == base_live, "image: memory leaked"); sym_reach("done");
}
