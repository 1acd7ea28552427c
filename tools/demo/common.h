#include <check.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lib/src/includes/signed_video_auth.h"
#include "lib/src/includes/signed_video_common.h"
#include "lib/src/includes/signed_video_openssl.h"
#include "lib/src/includes/signed_video_sign.h"
#include "lib/src/signed_video_h26x_internal.h"
#include "lib/src/signed_video_internal.h"
#include "lib/src/signed_video_openssl_internal.h"
#include "lib/src/signed_video_tlv.h"
#include "lib/src/signed_video_authenticity.h"
#include "test_helpers.h"
#include "test_stream.h"
#define REQUIRE(c) do { if (!(c)) { fprintf(stderr, "demo: requirement failed: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
/* position and number of bytes of the signature in a SEI of a test stream */
static inline uint8_t *find_signature(test_stream_item_t *it, SignedVideoCodec codec, size_t *size) {
  h26x_nalu_t n = parse_nalu_info(it->data, it->data_size, codec, false, true);
  uint8_t *tag = (uint8_t *)tlv_find_tag(n.tlv_start_in_nalu_data, n.tlv_size, SIGNATURE_TAG, n.with_epb);
  free(n.nalu_data_wo_epb);
  REQUIRE(tag);
  *size = (size_t)(it->data + it->data_size - 1 - (tag + 8));
  return tag + 8;
}
/* authenticates a stream; the worst verdict per report is handed to the callback */
typedef void (*report_cb)(signed_video_authenticity_t *r, void *arg);
static inline int authenticate(test_stream_t *list, SignedVideoCodec codec, report_cb cb, void *arg) {
  signed_video_t *sv = signed_video_create(codec);
  int n = 0;
  for (test_stream_item_t *it = list->first_item; it; it = it->next) {
    signed_video_authenticity_t *r = NULL;
    signed_video_add_nalu_and_authenticate(sv, it->data, it->data_size, &r);
    if (r) { n++; cb(r, arg); signed_video_authenticity_report_free(r); }
  }
  signed_video_free(sv);
  return n;
}
/* signs the NALUs of a list in place: generated SEIs are inserted in the list */
static inline void sign_list(signed_video_t *sv, test_stream_t *list) {
  static const int64_t ts = 42;
  int left = 0;
  for (test_stream_item_t *it = list->first_item; it;) {
    size_t n = 0; int off = 0, num = 0;
    REQUIRE(signed_video_get_sei(sv, NULL, &n, &off, it->data, it->data_size, NULL) == SV_OK);
    while (n) {
      uint8_t *sei = malloc(n);
      REQUIRE(signed_video_get_sei(sv, sei, &n, &off, it->data, it->data_size, NULL) == SV_OK);
      test_stream_item_prepend(it, test_stream_item_create(sei, n, sv->codec));
      num++;
      REQUIRE(signed_video_get_sei(sv, NULL, &n, &off, it->data, it->data_size, NULL) == SV_OK);
    }
    while (num-- > 0) it = it->prev;
    REQUIRE(signed_video_add_nalu_part_for_signing_with_timestamp(sv, it->data, it->data_size, &ts, true) == SV_OK);
    it = it->next;
  }
  test_stream_refresh(list);
}
