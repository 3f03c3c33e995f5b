/* Replay runtime: runs a harness entry natively, feeding recorded inputs.
 * Usage: replay ENTRY FILE      one line of inputs per run
 * Prints, per line, "OK obs...", and on a failed assertion "ASSERT code".
 * Exit: 0 all lines ran; 42 assertion; 43 assumption not met; 44 inputs
 * exhausted or out of range; a panic aborts (SIGABRT). */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "entries.h"

static uint64_t *in;
static size_t nin, pos;
static uint64_t *obs;
static size_t nobs, cobs;

uint64_t sx_var(uint64_t hi) {
    if (pos >= nin || in[pos] > hi) {
        printf("INPUTS %zu\n", pos);
        fflush(stdout);
        _Exit(44);
    }
    return in[pos++];
}
uint64_t sx_pick(uint64_t n) { return n <= 1 ? 0 : sx_var(n - 1); }
uint64_t sx_concrete(uint64_t v) { return v; }
void sx_assume(uint64_t c) {
    if (!c) {
        printf("ASSUME\n");
        fflush(stdout);
        _Exit(43);
    }
}
void sx_assert(uint64_t c, uint64_t code) {
    if (!c) {
        printf("ASSERT %llu\n", (unsigned long long)code);
        fflush(stdout);
        _Exit(42);
    }
}
void sx_cover(uint64_t code) { (void)code; }
static uint64_t refuse;
void sx_refuse(uint64_t code) { refuse = code; }
void sx_observe(uint64_t v) {
    if (nobs == cobs) {
        cobs = cobs ? cobs * 2 : 64;
        obs = realloc(obs, cobs * sizeof *obs);
    }
    obs[nobs++] = v;
}

int main(int argc, char **argv) {
    void (*f)(void) = 0;
    if (argc != 3) return 2;
    for (size_t i = 0; i < sizeof entries / sizeof *entries; i++)
        if (!strcmp(entries[i].name, argv[1])) f = entries[i].f;
    if (!f) return 2;
    FILE *fp = fopen(argv[2], "r");
    if (!fp) return 2;
    char *line = 0;
    size_t cap = 0;
    while (getline(&line, &cap, fp) > 0) {
        size_t c = 16;
        in = malloc(c * sizeof *in);
        nin = pos = nobs = 0;
        for (char *t = strtok(line, " \n"); t; t = strtok(0, " \n")) {
            if (nin == c) in = realloc(in, (c *= 2) * sizeof *in);
            in[nin++] = strtoull(t, 0, 10);
        }
        refuse = 0;
        f();
        sx_assert(!refuse, refuse);
        printf("OK");
        for (size_t i = 0; i < nobs; i++) printf(" %llu", (unsigned long long)obs[i]);
        printf("\n");
        fflush(stdout);
        free(in);
    }
    return 0;
}
