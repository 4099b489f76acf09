// reads lines "<hex>" or "h <salt hex> <password hex>", prints what the
// digest and checksum primitives of the library answer
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "libzdb.h"

#ifdef ZV_SOFT
uint32_t zv_soft_crc32(const uint8_t *bytes, ssize_t length);
#endif

static size_t unhex(const char *in, unsigned char *out) {
    size_t n = 0;
    while(in[0] && in[1] && in[0] != ' ' && in[0] != '\n') {
        char tmp[3] = {in[0], in[1], 0};
        out[n++] = strtoul(tmp, NULL, 16);
        in += 2;
    }
    return n;
}

int main() {
    char *line = NULL;
    size_t cap = 0;
    ssize_t len;

    while((len = getline(&line, &cap, stdin)) > 0) {
        if(line[0] == 'h') {
            char *sp = strchr(line + 2, ' ');
            char *salt = calloc(1, len), *pass = calloc(1, len);
            unhex(line + 2, (unsigned char *) salt);
            unhex(sp + 1, (unsigned char *) pass);
            char *r = zdb_hash_password(salt, pass);
            printf("@%s\n", r ? r : "null");
            free(r); free(salt); free(pass);
            continue;
        }

        if(line[0] == 'c') {
            char *c = zdb_challenge();
            printf("@%s\n", c ? c : "null");
            free(c);
            continue;
        }

        // exact-size copy at an unusual alignment: reads past the end are seen
        unsigned char *tmp = malloc(len);
        int shift = line[0] - '0';
        size_t n = unhex(line + 2, tmp);
        unsigned char *base = malloc(n + shift);
        memcpy(base + shift, tmp, n);
        char hash[21];
        memset(hash, 0, sizeof(hash));
        zdb_sha1(hash, (char *) base + shift, n);
        printf("@");
        for(int i = 0; i < 20; i++)
            printf("%02x", hash[i] & 0xff);
        printf(" %08x %08x", zdb_crc32(base + shift, n), zdb_checksum_crc32(base + shift, n));
        #ifdef ZV_SOFT
        printf(" %08x", zv_soft_crc32(base + shift, n));
        #endif
        printf("\n");
        free(base);
        free(tmp);
    }
    return 0;
}
