// the replication utilities only know TCP: an address which is a path
// is reached through its unix socket
#include <hiredis/hiredis.h>

redisContext *__real_redisConnectWithTimeout(const char *ip, int port, const struct timeval tv);
redisContext *__real_redisConnect(const char *ip, int port);

redisContext *__wrap_redisConnectWithTimeout(const char *ip, int port, const struct timeval tv) {
    return ip[0] == '/' ? redisConnectUnixWithTimeout(ip, tv) : __real_redisConnectWithTimeout(ip, port, tv);
}

redisContext *__wrap_redisConnect(const char *ip, int port) {
    return ip[0] == '/' ? redisConnectUnix(ip) : __real_redisConnect(ip, port);
}
