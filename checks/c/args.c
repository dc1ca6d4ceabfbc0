/* Runs the compiler's real command line parser on argument lists.
 * usage: args < lists ; one list per line, arguments separated by \x01 ; prints one line of results per list. */
#include "core/args.h"
#include "core/log.h"
#include "core/mempool.h"
#include "core/strpool.h"
#include "driver/options.h"
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=0:exitcode=66"; }
__attribute__((weak)) void printType(FormatState *s, const struct Type *t) { (void)s; (void)t; }

static jmp_buf out;
static int exited, exitCode;
void __wrap_exit(int code) { exitCode = code; exited = 1; longjmp(out, 1); }
FILE *__wrap_popen(const char *c, const char *m) { (void)c; (void)m; return fopen("/dev/null", "r"); }
int __wrap_pclose(FILE *f) { fclose(f); return 0; }

static int errors;
static void onDiag(const Diagnostic *d, void *ctx) { (void)ctx; if (d->kind == dkError) errors++; }

static void list(FILE *o, const char *name, DynArray *a, size_t skip)
{
    fprintf(o, "%s=[", name);
    for (size_t i = skip; i < a->size; i++) fprintf(o, "%s%s", i > skip ? "," : "", ((cstring *)a->elems)[i]);
    fputs("] ", o);
}

int main(void)
{
    FILE *o = fdopen(dup(1), "w");
    freopen("/dev/null", "w", stdout);
    freopen("/dev/null", "w", stderr);
    unsetenv("CXY_OS");
    unsetenv("CXY_STDLIB_DIR");
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        static char *argv[64];
        static char *keep[64];
        int argc = 0;
        keep[argc] = argv[argc] = strdup("cxy"), argc++;
        if (n) for (char *p = line, *e; p && argc < 60; p = e ? e + 1 : NULL) {
            e = strchr(p, 1);
            keep[argc] = argv[argc] = strndup(p, e ? (size_t)(e - p) : strlen(p));
            argc++;
        }
        argv[argc] = NULL;
        int total = argc;
        static MemPool pool; static StrPool strings; static Options opt; static Log log;
        pool = newMemPool();
        strings = newStrPool(&pool);
        memset(&opt, 0, sizeof opt);
        log = newLog(onDiag, NULL);
        errors = exited = 0;
        volatile bool ok = false;
        if (!setjmp(out)) ok = parseCommandLineOptions(&argc, argv, &strings, &opt, &log);
        if (exited) fprintf(o, "exit %d", exitCode);
        else if (!ok) fprintf(o, "error %d", errors > 0);
        else {
            static const char *cmds[] = {"dev", "build", "test", "run"};
            fprintf(o, "ok cmd=%s files=[", cmds[opt.cmd]);
            for (int i = 1; i < argc; i++) fprintf(o, "%s%s", i > 1 ? "," : "", argv[i]);
            fprintf(o, "] maxErrors=%zu noStyle=%d warnings=%llx progress=%d O=%c mm=%d g=%d pie=%d builtins=%d stats=%d stdlib=%s ",
                    log.maxErrors, log.ignoreStyles, (unsigned long long)log.enabledWarnings.num, log.progress, (int)opt.optimizationLevel, opt.withMemoryManager, opt.debug, !opt.noPIE,
                    !opt.withoutBuiltins, (int)opt.dsmMode, opt.libDir ? opt.libDir : "-");
            fprintf(o, "passes=%s dpm=%d ", opt.passes ? opt.passes : "-", opt.debugPassManager);
            list(o, "cflags", &opt.cflags, 0);
            list(o, "cdefs", &opt.cDefines, 0);
            list(o, "dirs", &opt.importSearchPaths, 0);
            list(o, "libdirs", &opt.librarySearchPaths, 0);
            list(o, "libs", &opt.libraries, 0);
            list(o, "plugins", &opt.loadPassPlugins, 0);
            fputs("defs=[", o);
            for (size_t i = 0; i < opt.defines.size; i++) {
                CompilerDefine *d = (CompilerDefine *)opt.defines.elems + i;
                fprintf(o, "%s%s:%s", i ? "," : "", d->name, d->value ? d->value : "-");
            }
            fprintf(o, "] out=%s dir=%s", opt.output ? opt.output : "-", opt.buildDir ? opt.buildDir : "-");
            if (opt.cmd == cmdDev)
                fprintf(o, " last=%lu dump=%d ir=%d bc=%d asm=%d clean=%d loc=%d attrs=%d named=%d", opt.dev.lastStage, (int)opt.dev.dumpMode, opt.dev.printIR, opt.dev.emitBitCode, opt.dev.emitAssembly, opt.dev.cleanAst, opt.dev.withLocation, opt.dev.withoutAttrs, opt.dev.withNamedEnums);
        }
        fputc('\n', o);
        fflush(o);
        if (!exited) {
            deinitCommandLineOptions(&opt);
            freeLog(&log);
        }
        freeStrPool(&strings);
        freeMemPool(&pool);
        for (int i = 0; i < total; i++) free(keep[i]);
    }
    fflush(o);
    return 0;
}
