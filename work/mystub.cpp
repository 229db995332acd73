// The client library's TLS back end is left out: connections to the simulated server are not encrypted.
extern "C" {
#define T(n) void *n(...); void *n(...) { return 0; }
T(ma_tls_init) T(ma_tls_connect) T(ma_tls_read) T(ma_tls_write) T(ma_tls_read_async) T(ma_tls_write_async) T(ma_tls_close) T(ma_tls_verify_server_cert) T(ma_tls_get_cipher) T(ma_tls_get_finger_print) T(ma_tls_get_protocol_version) T(ma_tls_get_protocol_version_id) T(ma_tls_set_connection) T(ma_tls_get_password) T(ma_tls_get_peer_cert_info)
int ma_tls_start(char *, unsigned long); int ma_tls_start(char *, unsigned long) { return 0; }
void ma_tls_end(void); void ma_tls_end(void) {}
char tls_library_version[64] = "none";
}
