// an application embedding the library: executes the calls read on stdin, one
// per line, and prints what each one answers
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include "libzdb.h"

static unsigned char *unhex(const char *in, size_t *len) {
    // exact size: reads past the end are seen
    size_t n = strcmp(in, "-") == 0 ? 0 : strlen(in) / 2;
    unsigned char *out = malloc(n ? n : 1);
    for(size_t i = 0; i < n; i++) {
        unsigned int v;
        sscanf(in + i * 2, "%2x", &v);
        out[i] = v;
    }
    if(n == 0) {
        free(out);
        out = malloc(0);
    }
    *len = n;
    return out;
}

static void hex(const unsigned char *b, size_t n) {
    putchar(' ');
    if(n == 0)
        putchar('-');
    for(size_t i = 0; i < n; i++)
        printf("%02x", b[i]);
}

static int say(FILE *out, const char *t) {
    (void) out;
    printf("@%s\n", t);
    return 0;
}

static zdb_settings_t *boot(char **argv) {
    zdb_settings_t *s = zdb_initialize();
    if(!s)
        return NULL;
    zdb_id_set("embedding");
    s->datapath = argv[1];
    s->indexpath = argv[2];
    if(strcmp(argv[3], "seq") == 0)
        s->mode = ZDB_MODE_SEQUENTIAL;
    if(strcmp(argv[3], "user") == 0)
        s->mode = ZDB_MODE_KEY_VALUE;
    s->datasize = atoll(argv[4]);
    return zdb_open(s);
}

int main(int argc, char **argv) {
    char *line = NULL;
    size_t cap = 0;
    zdb_settings_t *s;
    if(argc < 5 || !(s = boot(argv))) {
        say(stdout, "noboot");
        return 3;
    }
    say(stdout, "ready");
    fflush(stdout);

    while(getline(&line, &cap, stdin) > 0) {
        char *w[5] = {0};
        int n = 0;
        for(char *p = strtok(line, " \n"); p && n < 5; p = strtok(NULL, " \n"))
            w[n++] = p;
        if(n == 0)
            continue;
        if(strcmp(w[0], "reopen") == 0) {
            zdb_close(s);
            say(stdout, (s = boot(argv)) ? "ready" : "noboot");
            fflush(stdout);
            if(!s)
                return 3;
            continue;
        }
        if(strcmp(w[0], "quit") == 0)
            break;
        size_t nl, kl, vl = 0;
        char *raw = (char *) unhex(w[1], &nl);
        char *name = strndup(raw, nl);
        free(raw);
        if(strcmp(w[0], "new") == 0) {
            // what an application has to check first
            printf("@%d\n", namespace_get(name) || !namespace_valid_name(name) ? -1 : namespace_create(name));
        } else {
            namespace_t *ns = strcmp(name, "default") == 0 ? namespace_get_default() : namespace_get(name);
            if(!ns) {
                say(stdout, "nons");
            } else if(strcmp(w[0], "delns") == 0) {
                printf("@%d\n", namespace_delete(ns));
            } else if(strcmp(w[0], "flush") == 0) {
                printf("@%d\n", namespace_flush(ns));
            } else if(strcmp(w[0], "reload") == 0) {
                printf("@%d\n", namespace_reload(ns));
            } else {
                unsigned char *key = unhex(w[2], &kl), *val = NULL;
                zdb_api_t *r = NULL;
                if(strcmp(w[0], "set") == 0) {
                    val = unhex(w[3], &vl);
                    r = zdb_api_set(ns, key, kl, val, vl);
                }
                if(strcmp(w[0], "get") == 0)
                    r = zdb_api_get(ns, key, kl);
                if(strcmp(w[0], "exists") == 0)
                    r = zdb_api_exists(ns, key, kl);
                if(strcmp(w[0], "check") == 0)
                    r = zdb_api_check(ns, key, kl);
                if(strcmp(w[0], "del") == 0)
                    r = zdb_api_del(ns, key, kl);
                // the caller may reuse its buffers as soon as the call is over
                memset(key, 0xdb, kl);
                free(key);
                free(val);
                printf("@%s", zdb_api_debug_type(r->status));
                if(r->status == ZDB_API_BUFFER) {
                    zdb_api_buffer_t *b = r->payload;
                    hex(b->payload, b->size);
                }
                if(r->status == ZDB_API_ENTRY) {
                    zdb_api_entry_t *e = r->payload;
                    hex(e->key.payload, e->key.size);
                    hex(e->payload.payload, e->payload.size);
                }
                printf("\n");
                zdb_api_reply_free(r);
            }
        }
        free(name);
        fflush(stdout);
    }
    zdb_close(s);
    free(line);
    say(stdout, "closed");
    return 0;
}
