/* audit exec PROG ARGS...  runs PROG with the default action for SIGQUIT.
   audit base FILE          records what the calling shell holds: descriptors, by what they are, and dead children.
   audit check FILE         says what the calling shell holds beyond that (waiting up to two seconds for it to go).
   audit quit MS            has the calling shell print its goroutines and stop. */
#include <dirent.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
struct held { char what[64][128]; int n[64], kinds; };
static void add(struct held *h, const char *w) {
    for (int i = 0; i < h->kinds; i++) if (!strcmp(h->what[i], w)) { h->n[i]++; return; }
    if (h->kinds < 64) { snprintf(h->what[h->kinds], 128, "%s", w); h->n[h->kinds++] = 1; }
}
static void look(struct held *h) {
    char p[300], l[256];
    pid_t pp = getppid();
    memset(h, 0, sizeof *h);
    snprintf(p, sizeof p, "/proc/%d/fd", pp);
    DIR *d = opendir(p);
    struct dirent *e;
    while (d && (e = readdir(d))) {
        if (e->d_name[0] == '.') continue;
        snprintf(p, sizeof p, "/proc/%d/fd/%s", pp, e->d_name);
        ssize_t k = readlink(p, l, sizeof l - 1);
        if (k < 0) continue;
        l[k] = 0;
        if (!strncmp(l, "pipe:", 5)) l[4] = 0;
        if (!strncmp(l, "socket:", 7)) l[6] = 0;
        add(h, l);
    }
    if (d) closedir(d);
    d = opendir("/proc");
    while (d && (e = readdir(d))) {
        if (e->d_name[0] < '0' || e->d_name[0] > '9' || atoi(e->d_name) == getpid()) continue;
        snprintf(p, sizeof p, "/proc/%s/stat", e->d_name);
        FILE *f = fopen(p, "r");
        if (!f) continue;
        char s[1024], *r; char st; int par;
        size_t m = fread(s, 1, sizeof s - 1, f);
        fclose(f);
        s[m] = 0;
        r = strrchr(s, ')');
        if (r && sscanf(r + 1, " %c %d", &st, &par) == 2 && par == pp) add(h, st == 'Z' ? "dead child" : "live child");
    }
    if (d) closedir(d);
}
static int beyond(struct held *h, struct held *b, int say) {
    int bad = 0;
    for (int i = 0; i < h->kinds; i++) {
        int was = 0;
        for (int j = 0; j < b->kinds; j++) if (!strcmp(b->what[j], h->what[i])) was = b->n[j];
        if (h->n[i] > was) { bad++; if (say) printf("held: %d more of %s\n", h->n[i] - was, h->what[i]); }
    }
    return bad;
}
int main(int argc, char **argv) {
    struct held h, b;
    if (argc > 2 && !strcmp(argv[1], "exec")) {
        signal(SIGQUIT, SIG_DFL);
        execv(argv[2], argv + 2);
        return 127;
    }
    if (argc > 2 && !strcmp(argv[1], "base")) {
        look(&b);
        for (int i = 0; i < 40; i++) { usleep(1000); look(&h); if (beyond(&b, &h, 0)) { b = h; i = 0; } if (i > 4) break; }
        FILE *f = fopen(argv[2], "w");
        fwrite(&b, sizeof b, 1, f);
        fclose(f);
        return 0;
    }
    if (argc > 2 && !strcmp(argv[1], "check")) {
        FILE *f = fopen(argv[2], "r");
        if (!f || fread(&b, sizeof b, 1, f) != 1) return 1;
        fclose(f);
        for (int i = 0; i < 400; i++) { look(&h); if (!beyond(&h, &b, 0)) { printf("nothing\n"); return 0; } usleep(5000); }
        beyond(&h, &b, 1);
        return 0;
    }
    if (argc > 2 && !strcmp(argv[1], "quit")) {
        usleep(1000 * atoi(argv[2]));
        kill(getppid(), SIGQUIT);
        sleep(5);
    }
    return 0;
}
