// Stand-ins for nghttp3, ngtcp2 and the parts of OpenSSL >= 3.5 that RestServer.hpp names (none is installed).
// HTTP/3 is only made to compile; HTTP/2 has a working stand-in, see nghttp2/nghttp2.h.
#ifndef VP_SHIM_NG_H
#define VP_SHIM_NG_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sys/socket.h>
#include <sys/types.h>
typedef ptrdiff_t nghttp3_ssize;
typedef ptrdiff_t ngtcp2_ssize;
typedef uint64_t  ngtcp2_tstamp;
namespace vpstub {
struct Any { // a call-back or option nobody looks at
    template<class T> Any &operator=(T &&) { return *this; }
    template<class T> Any(T &&) {}
    Any() = default;
};
}
#define VP_STUB(f) template<class... A> inline long f(A &&...) { std::abort(); }
#define VP_CB(f) inline constexpr int f = 0;
#define VP_PTR(t, f) template<class... A> inline t f(A &&...) { std::abort(); }
enum ngtcp2_encryption_level { NGTCP2_ENCRYPTION_LEVEL_INITIAL, NGTCP2_ENCRYPTION_LEVEL_HANDSHAKE, NGTCP2_ENCRYPTION_LEVEL_1RTT, NGTCP2_ENCRYPTION_LEVEL_0RTT };
enum ngtcp2_path_validation_result { NGTCP2_PATH_VALIDATION_RESULT_SUCCESS, NGTCP2_PATH_VALIDATION_RESULT_FAILURE };
enum ngtcp2_token_type { NGTCP2_TOKEN_TYPE_UNKNOWN, NGTCP2_TOKEN_TYPE_RETRY, NGTCP2_TOKEN_TYPE_NEW_TOKEN };
#define NGHTTP3_DATA_FLAG_EOF (1)
#define NGHTTP3_ERR_CALLBACK_FAILURE (-902)
#define NGHTTP3_ERR_STREAM_NOT_FOUND (-110)
#define NGHTTP3_H3_NO_ERROR (0x100)
#define NGHTTP3_NV_FLAG_NONE (0)
#define NGHTTP3_NV_FLAG_NO_COPY_NAME (2)
#define NGHTTP3_NV_FLAG_NO_COPY_VALUE (4)
#define NGTCP2_CCERR_TYPE_IDLE_CLOSE (3)
#define NGTCP2_CRYPTO_ERR_VERIFY_TOKEN (-203)
#define NGTCP2_ERR_CALLBACK_FAILURE (-502)
#define NGTCP2_ERR_CRYPTO (-217)
#define NGTCP2_ERR_DRAINING (-230)
#define NGTCP2_ERR_DROP_CONN (-242)
#define NGTCP2_ERR_RETRY (-241)
#define NGTCP2_ERR_STREAM_DATA_BLOCKED (-210)
#define NGTCP2_ERR_STREAM_SHUT_WR (-221)
#define NGTCP2_ERR_VERSION_NEGOTIATION (-245)
#define NGTCP2_ERR_WRITE_MORE (-240)
#define NGTCP2_INVALID_TOKEN (0xb)
#define NGTCP2_PATH_VALIDATION_FLAG_NEW_TOKEN (2)
#define NGTCP2_PKT_INITIAL (0x10)
#define NGTCP2_STREAM_CLOSE_FLAG_APP_ERROR_CODE_SET (1)
#define NGTCP2_STREAM_DATA_FLAG_FIN (1)
#define NGTCP2_WRITE_STREAM_FLAG_FIN (2)
#define NGTCP2_WRITE_STREAM_FLAG_MORE (1)
#define NGTCP2_CRYPTO_MAX_REGULAR_TOKENLEN 100
#define NGTCP2_CRYPTO_MAX_RETRY_TOKENLEN2 200
#define NGTCP2_CRYPTO_TOKEN_MAGIC_REGULAR 0x36
#define NGTCP2_CRYPTO_TOKEN_MAGIC_RETRY2 0xb7
#define NGTCP2_MAX_CIDLEN 20
#define NGTCP2_MAX_UDP_PAYLOAD_SIZE 1200
#define NGTCP2_MIN_INITIAL_DCIDLEN 8
#define NGTCP2_PROTO_VER_V1 0x1u
#define NGTCP2_PROTO_VER_V2 0x6b3343cfu
#define NGTCP2_SECONDS 1000000000ull
#define NGTCP2_STATELESS_RESET_TOKENLEN 16
struct nghttp3_conn; struct nghttp3_rcbuf; struct ngtcp2_conn; struct ngtcp2_crypto_ossl_ctx;
struct nghttp3_nv { const uint8_t *name, *value; size_t namelen, valuelen; uint8_t flags; };
struct nghttp3_vec { uint8_t *base; size_t len; };
struct ngtcp2_vec { uint8_t *base; size_t len; };
struct nghttp3_data_reader { nghttp3_ssize (*read_data)(nghttp3_conn *, int64_t, nghttp3_vec *, size_t, uint32_t *, void *, void *); };
struct ngtcp2_addr { sockaddr *addr; socklen_t addrlen; };
struct ngtcp2_path { ngtcp2_addr local, remote; void *user_data; };
struct ngtcp2_path_storage { ngtcp2_path path; };
struct ngtcp2_cid { size_t datalen; uint8_t data[NGTCP2_MAX_CIDLEN]; };
struct ngtcp2_ccerr { int type; uint64_t error_code; };
struct ngtcp2_crypto_aead_ctx { void *native_handle; };
struct ngtcp2_crypto_conn_ref { ngtcp2_conn *(*get_conn)(ngtcp2_crypto_conn_ref *); void *user_data; };
struct ngtcp2_pkt_hd { ngtcp2_cid dcid, scid; const uint8_t *token; size_t tokenlen; uint32_t version; uint8_t type, flags; };
struct ngtcp2_pkt_info { uint8_t ecn; };
struct ngtcp2_rand_ctx { void *native_handle; };
struct ngtcp2_settings { ngtcp2_tstamp initial_ts; const uint8_t *token; size_t tokenlen; ngtcp2_token_type token_type; vpstub::Any log_printf; };
struct ngtcp2_transport_params { uint64_t initial_max_stream_data_bidi_local, initial_max_stream_data_bidi_remote, initial_max_stream_data_uni, initial_max_data, initial_max_streams_bidi, initial_max_streams_uni, max_idle_timeout, active_connection_id_limit; uint8_t stateless_reset_token_present, retry_scid_present, original_dcid_present; ngtcp2_cid original_dcid, retry_scid; uint8_t stateless_reset_token[16]; };
struct ngtcp2_version_cid { uint32_t version; const uint8_t *dcid; size_t dcidlen; const uint8_t *scid; size_t scidlen; };
struct ngtcp2_callbacks { vpstub::Any acked_stream_data, acked_stream_data_offset, begin_headers, client_initial, decrypt, deferred_consume, delete_crypto_aead_ctx, delete_crypto_cipher_ctx, encrypt, end_headers, end_stream, extend_max_remote_streams_bidi, extend_max_stream_data, get_new_connection_id, get_path_challenge_data, handshake_completed, hp_mask, path_validation, rand, recv_client_initial, recv_crypto_data, recv_data, recv_header, recv_settings, recv_stream_data, recv_tx_key, remove_connection_id, reset_stream, shutdown, stop_sending, stream_close, stream_open, stream_reset, stream_stop_sending, update_key, version_negotiation; };
struct nghttp3_callbacks { vpstub::Any acked_stream_data, acked_stream_data_offset, begin_headers, client_initial, decrypt, deferred_consume, delete_crypto_aead_ctx, delete_crypto_cipher_ctx, encrypt, end_headers, end_stream, extend_max_remote_streams_bidi, extend_max_stream_data, get_new_connection_id, get_path_challenge_data, handshake_completed, hp_mask, path_validation, rand, recv_client_initial, recv_crypto_data, recv_data, recv_header, recv_settings, recv_stream_data, recv_tx_key, remove_connection_id, reset_stream, shutdown, stop_sending, stream_close, stream_open, stream_reset, stream_stop_sending, update_key, version_negotiation; };
struct nghttp3_settings { uint64_t qpack_max_dtable_capacity, qpack_blocked_streams; };
VP_STUB(nghttp3_conn_add_ack_offset)
VP_STUB(nghttp3_conn_add_write_offset)
VP_STUB(nghttp3_conn_bind_control_stream)
VP_STUB(nghttp3_conn_bind_qpack_streams)
VP_STUB(nghttp3_conn_block_stream)
VP_STUB(nghttp3_conn_close_stream)
VP_STUB(nghttp3_conn_del)
VP_STUB(nghttp3_conn_read_stream)
VP_STUB(nghttp3_conn_server_new)
VP_STUB(nghttp3_conn_set_max_client_streams_bidi)
VP_STUB(nghttp3_conn_set_stream_user_data)
VP_STUB(nghttp3_conn_shutdown_stream_read)
VP_STUB(nghttp3_conn_shutdown_stream_write)
VP_STUB(nghttp3_conn_submit_response)
VP_STUB(nghttp3_conn_unblock_stream)
VP_STUB(nghttp3_conn_writev_stream)
VP_STUB(nghttp3_err_infer_quic_app_error_code)
VP_STUB(nghttp3_set_debug_vprintf_callback)
VP_STUB(nghttp3_settings_default)
VP_STUB(ngtcp2_accept)
VP_STUB(ngtcp2_ccerr_set_application_error)
VP_STUB(ngtcp2_ccerr_set_liberr)
VP_STUB(ngtcp2_ccerr_set_tls_alert)
VP_STUB(ngtcp2_cid_eq)
VP_STUB(ngtcp2_cid_init)
VP_STUB(ngtcp2_conn_extend_max_offset)
VP_STUB(ngtcp2_conn_extend_max_stream_offset)
VP_STUB(ngtcp2_conn_extend_max_streams_bidi)
VP_STUB(ngtcp2_conn_get_client_chosen_version)
VP_STUB(ngtcp2_conn_get_max_data_left)
VP_STUB(ngtcp2_conn_get_max_tx_udp_payload_size)
VP_STUB(ngtcp2_conn_get_negotiated_version)
VP_STUB(ngtcp2_conn_get_path_max_tx_udp_payload_size)
VP_STUB(ngtcp2_conn_get_send_quantum)
VP_STUB(ngtcp2_conn_get_streams_uni_left)
VP_STUB(ngtcp2_conn_get_tls_alert)
VP_STUB(ngtcp2_conn_in_closing_period)
VP_STUB(ngtcp2_conn_in_draining_period)
VP_STUB(ngtcp2_conn_is_local_stream)
VP_STUB(ngtcp2_conn_open_uni_stream)
VP_STUB(ngtcp2_conn_read_pkt)
VP_STUB(ngtcp2_conn_server_new)
VP_STUB(ngtcp2_conn_set_tls_native_handle)
VP_STUB(ngtcp2_conn_submit_new_token)
VP_STUB(ngtcp2_conn_update_pkt_tx_time)
VP_STUB(ngtcp2_conn_write_connection_close)
VP_STUB(ngtcp2_conn_writev_stream)
VP_STUB(ngtcp2_crypto_generate_regular_token)
VP_STUB(ngtcp2_crypto_generate_retry_token2)
VP_STUB(ngtcp2_crypto_generate_stateless_reset_token)
VP_STUB(ngtcp2_crypto_ossl_configure_server_session)
VP_STUB(ngtcp2_crypto_ossl_ctx_del)
VP_STUB(ngtcp2_crypto_ossl_ctx_new)
VP_STUB(ngtcp2_crypto_ossl_ctx_set_ssl)
VP_STUB(ngtcp2_crypto_ossl_init)
VP_STUB(ngtcp2_crypto_update_key)
VP_STUB(ngtcp2_crypto_verify_regular_token)
VP_STUB(ngtcp2_crypto_verify_retry_token2)
VP_STUB(ngtcp2_crypto_write_connection_close)
VP_STUB(ngtcp2_crypto_write_retry)
VP_STUB(ngtcp2_is_bidi_stream)
VP_STUB(ngtcp2_path_copy)
VP_STUB(ngtcp2_path_eq)
VP_STUB(ngtcp2_path_storage_zero)
VP_STUB(ngtcp2_pkt_decode_version_cid)
VP_STUB(ngtcp2_pkt_write_stateless_reset)
VP_STUB(ngtcp2_pkt_write_version_negotiation)
VP_STUB(ngtcp2_settings_default)
VP_STUB(ngtcp2_transport_params_default)
VP_CB(ngtcp2_crypto_client_initial_cb)
VP_CB(ngtcp2_crypto_decrypt_cb)
VP_CB(ngtcp2_crypto_delete_crypto_aead_ctx_cb)
VP_CB(ngtcp2_crypto_delete_crypto_cipher_ctx_cb)
VP_CB(ngtcp2_crypto_encrypt_cb)
VP_CB(ngtcp2_crypto_get_path_challenge_data_cb)
VP_CB(ngtcp2_crypto_hp_mask_cb)
VP_CB(ngtcp2_crypto_recv_client_initial_cb)
VP_CB(ngtcp2_crypto_recv_crypto_data_cb)
VP_CB(ngtcp2_crypto_version_negotiation_cb)
VP_PTR(const ngtcp2_path *, ngtcp2_conn_get_path)
VP_PTR(const ngtcp2_cid *, ngtcp2_conn_get_client_initial_dcid)
VP_PTR(const ngtcp2_transport_params *, ngtcp2_conn_get_local_transport_params)
VP_PTR(const char *, nghttp3_strerror)
VP_PTR(const char *, ngtcp2_strerror)
VP_PTR(const void *, nghttp3_mem_default)
VP_PTR(nghttp3_vec, nghttp3_rcbuf_get_buf)
struct ssl_st;
template<class... A> inline const char *SSL_get0_group_name(A &&...) { std::abort(); }
VP_STUB(SSL_set_quic_tls_early_data_enabled)
VP_PTR(ssl_st *, ngtcp2_crypto_ossl_ctx_get_ssl)
VP_STUB(ngtcp2_conn_get_scid)
#endif
