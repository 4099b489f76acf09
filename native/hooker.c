// external hook used by the checks: logs how it was called, then does
// what the file beside it says for that event
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>

static char dir[4096], line[1 << 17];

static char *at(const char *name) {
    static char path[8192];
    snprintf(path, sizeof(path), "%s/%s", dir, name);
    return path;
}

static void put(int n) {
    int fd = open(at("hook.log"), O_WRONLY | O_APPEND | O_CREAT, 0644);
    if(fd < 0 || write(fd, line, n) != n)
        _exit(77);
    close(fd);
}

int main(int argc, char *argv[]) {
    snprintf(dir, sizeof(dir), "%s", argv[0]);
    char *s = strrchr(dir, '/');
    if(!s)
        return 78;
    *s = 0;

    // what was inherited
    int fds = 0, strange = 0;
    DIR *d = opendir("/proc/self/fd");
    struct dirent *e;
    while(d && (e = readdir(d)))
        if(e->d_name[0] != '.' && atoi(e->d_name) > 2 && atoi(e->d_name) != dirfd(d))
            fds++;
    if(d)
        closedir(d);
    sigset_t m;
    sigprocmask(SIG_BLOCK, NULL, &m);
    for(int k = 1; k < 32; k++) {
        struct sigaction sa;
        if(sigismember(&m, k))
            strange++;
        if((k == SIGTERM || k == SIGINT || k == SIGSEGV) && !sigaction(k, NULL, &sa) && sa.sa_handler != SIG_DFL)
            strange++;
    }

    // what to do
    char event[64], act[64], todo[64] = "-";
    int value = 0, v, code = 0;
    FILE *f = fopen(at("hook.act"), "r");
    while(f && argc > 1 && fscanf(f, "%63s %63s %d", event, act, &v) == 3)
        if(!strcmp(event, argv[1])) {
            strcpy(todo, act);
            value = v;
        }
    if(f)
        fclose(f);

    int n = sprintf(line, "B %d %d %d %s", (int) getpid(), fds, strange, todo);
    for(int k = 1; k < argc; k++) {
        n += sprintf(line + n, " x");
        for(char *c = argv[k]; *c && n < (int) sizeof(line) - 64; c++)
            n += sprintf(line + n, "%02x", (unsigned char) *c);
    }
    line[n++] = '\n';
    put(n);

    if(!strcmp(todo, "exit"))
        code = value;
    else if(!strcmp(todo, "sleep"))
        usleep(value * 1000);
    else if(!strcmp(todo, "kill"))
        code = -value;
    else if(!strcmp(todo, "hold"))
        for(int k = 0; k < 10000 && access(at("hook.go"), F_OK); k++)
            usleep(2000);
    else if(!strcmp(todo, "stage") && argc > 4) {
        // puts a namespace in place: what is in stage/index and stage/data
        char from[8192], to[8192];
        for(int r = 0; r < 2; r++) {
            const char *names[] = {"index", "data"};
            snprintf(from, sizeof(from), "%s/stage/%s", dir, names[r]);
            snprintf(to, sizeof(to), "%s/%s", argv[3 + r], "staged");
            rename(from, to);
        }
    }

    n = sprintf(line, "E %d %d\n", (int) getpid(), code);
    put(n);
    if(code < 0) {
        kill(getpid(), -code);
        pause();
    }
    return code;
}
