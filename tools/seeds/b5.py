exec(open("/verif/tools/seeds/pre.py").read())
E="src/libcork/posix/env.c"; X="src/libcork/posix/exec.c"; S="src/libcork/posix/subprocess.c"; T="src/libcork/pthreads/thread.c"; P="src/libcork/posix/process.c"; C="src/libcork/cli/commands.c"; B="include/libcork/threads/basics.h"; A="include/libcork/threads/atomics.h"
PRE=PRE+'''
#include <libcork/os.h>
#include <libcork/threads.h>
#include <libcork/cli.h>
#include <libcork/helpers/errors.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/wait.h>
'''
CONS=PRE+'''
struct log { struct cork_stream_consumer c; char buf[1 << 20]; size_t n; int firsts, eofs, fail_eof; };
static int l_data(struct cork_stream_consumer *c, const void *b, size_t n, bool first) { struct log *l = (void *) c; memcpy(l->buf + l->n, b, n); l->n += n; l->firsts += first; return 0; }
static int l_eof(struct cork_stream_consumer *c) { struct log *l = (void *) c; l->eofs++; if (l->fail_eof) { cork_error_set_printf(EIO, "cannot end"); return -1; } return 0; }
static void l_free(struct cork_stream_consumer *c) { (void) c; }
static struct log O, R, O2;
static void l_init(struct log *l) { memset(l, 0, sizeof *l); l->c.data = l_data; l->c.eof = l_eof; l->c.free = l_free; }
'''
BUGS=[
dict(id="en-clone-last-equals", prop="C32", edits=[(E,"equal = strchr(entry, '=');","equal = strrchr(entry, '=');")],
 needs="cloning an environment with a value that contains an equals sign", breaks="the name and the value are split at the last sign",
 demo=PRE+'''
int main(void) { setenv("OPTS", "a=1,b=2", 1); struct cork_env *e = cork_env_clone_current(); const char *v = cork_env_get(e, "OPTS"); CHECK(v && !strcmp(v, "a=1,b=2")); cork_env_free(e); return 0; }'''),
dict(id="en-add-in-place", prop="C32", asan=True, edits=[(E,'''        struct cork_env_var  *var = cork_env_var_new(name, value);
        void  *old_var;
''','''        struct cork_env_var  *var =
            cork_hash_table_get(env->variables, (void *) name);
        void  *old_var;

        if (var != NULL) {
            /* Replace the value in place */
            cork_strfree(var->value);
            var->value = cork_strdup(value);
            return;
        }
        var = cork_env_var_new(name, value);
''')],
 needs="setting a variable to (a part of) its own current value", breaks="the value is read after it has been freed",
 demo=PRE+'''
int main(void) { struct cork_env *e = cork_env_new(); cork_env_add(e, "A", "prefix:something"); cork_env_add(e, "A", cork_env_get(e, "A") + 7); CHECK(!strcmp(cork_env_get(e, "A"), "something")); cork_env_free(e); return 0; }'''),
dict(id="en-install-empty", prop="C32", edits=[(E,'''    setenv(var->name, var->value, false);''','''    if (*var->value != '\\0') {
        setenv(var->name, var->value, false);
    }''')],
 needs="installing an environment with a variable that is set but empty", breaks="the variable is missing from the process's environment",
 demo=PRE+'''
int main(void) { struct cork_env *e = cork_env_new(); cork_env_add(e, "A", ""); cork_env_add(e, "B", "b"); cork_env_replace_current(e); CHECK(getenv("A") && !*getenv("A")); CHECK(getenv("B")); cork_env_free(e); return 0; }'''),
dict(id="en-install-keeps", prop="C32", edits=[(E,'''    clearenv();
    cork_hash_table_map(''','''    if (cork_hash_table_size(env->variables) > 0) {
        clearenv();
    }
    cork_hash_table_map(''')],
 needs="installing an empty environment", breaks="the old variables stay",
 demo=PRE+'''
int main(void) { setenv("A", "x", 1); struct cork_env *e = cork_env_new(); cork_env_add(e, "B", "b"); cork_env_remove(e, "B"); cork_env_replace_current(e); CHECK(getenv("A") == NULL); cork_env_free(e); return 0; }'''),
dict(id="ex-array-stops-at-empty", prop="C33", edits=[(X,"for (curr = params; *curr != NULL; curr++) {","for (curr = params; *curr != NULL && **curr != '\\0'; curr++) {")],
 needs="a parameter array with an empty parameter", breaks="that parameter and those behind it are lost",
 demo=PRE+'''
int main(void) { char *p[] = { "p", "a", "", "b", NULL }; struct cork_exec *e = cork_exec_new_with_param_array("p", p); CHECK(cork_exec_param_count(e) == 4); CHECK(!strcmp(cork_exec_param(e, 3), "b")); cork_exec_free(e); return 0; }'''),
dict(id="ex-cwd-before-env", prop="C33", edits=[(X,'''    /* Fill in the requested environment */
    if (exec->env != NULL) {
        cork_env_replace_current(exec->env);
    }
''','''    /* Fill in the requested environment */
    if (exec->env != NULL) {
        cork_env_replace_current(exec->env);
        if (exec->cwd != NULL) {
            setenv("PWD", exec->cwd, true);
        }
    }
''')],
 needs="a spec with both an environment and a working directory", breaks="the program gets a variable that the given environment doesn't have",
 demo=PRE+'''
int main(void) {
    pid_t p = fork(); if (p == 0) { char *a[] = { "sh", "-c", "tr '\\\\0' '\\\\n' < /proc/self/environ | grep -q '^PWD=' && exit 7; exit 0", NULL }; struct cork_env *v = cork_env_new(); cork_env_add(v, "PATH", "/bin:/usr/bin"); struct cork_exec *e = cork_exec_new_with_param_array("/bin/sh", a); cork_exec_set_env(e, v); cork_exec_set_cwd(e, "/"); cork_exec_run(e); _exit(3); }
    int s; waitpid(p, &s, 0); CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 0); return 0; }'''),
dict(id="ex-missing-cwd", prop="C33", edits=[(X,'''    if (exec->cwd != NULL) {
        ri_check_posix(chdir(exec->cwd));
    }''','''    if (exec->cwd != NULL && exec->cwd[0] != '\\0') {
        ri_check_posix(chdir(exec->cwd));
    }''')],
 needs="an empty working directory", breaks="the program is run in the wrong directory instead of failing",
 demo=PRE+'''
int main(void) {
    pid_t p = fork(); if (p == 0) { struct cork_exec *e = cork_exec_new_with_params("true", NULL); cork_exec_set_cwd(e, ""); cork_exec_run(e); _exit(cork_error_occurred()? 3: 4); }
    int s; waitpid(p, &s, 0); CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 3); return 0; }'''),
dict(id="sp-exit-signed", prop="C34", edits=[(S,"*self->exit_code = WEXITSTATUS(status);","*self->exit_code = (signed char) WEXITSTATUS(status);")],
 needs="an exit code above 127", breaks="a negative exit code is given",
 demo=CONS+'''
static int run(void *u) { _exit(200); }
int main(void) { int x = 0; struct cork_subprocess *s = cork_subprocess_new(NULL, NULL, run, NULL, NULL, &x); CHECK(cork_subprocess_start(s) == 0); CHECK(cork_subprocess_wait(s) == 0); CHECK(x == 200); return 0; }'''),
dict(id="sp-first-full", prop="C34", edits=[(S,'''                      (p->consumer, buf, bytes_read, p->first));
            p->first = false;''','''                      (p->consumer, buf, bytes_read, p->first));
            p->first = p->first && (bytes_read == BUF_SIZE);''')],
 needs="output that starts with a full buffer", breaks="a later chunk is marked first too",
 demo=CONS+'''
static int run(void *u) { char b[20000]; memset(b, 'x', sizeof b); write(1, b, sizeof b); return 0; }
int main(void) { int x = 0; l_init(&O); struct cork_subprocess *s = cork_subprocess_new(NULL, NULL, run, &O.c, NULL, &x); CHECK(cork_subprocess_start(s) == 0); CHECK(cork_subprocess_wait(s) == 0); CHECK(O.n == 20000); CHECK(O.firsts == 1); CHECK(O.eofs == 1); return 0; }'''),
dict(id="sp-stderr-unfinished", prop="C34", edits=[(S,'''        && cork_read_pipe_is_finished(&self->stdout_pipe)
        && cork_read_pipe_is_finished(&self->stderr_pipe);''','''        && cork_read_pipe_is_finished(&self->stdout_pipe);''')],
 needs="standard error that is still held open when the process has gone", breaks="the rest of the standard error is lost, and its end isn't announced",
 demo=CONS+'''
static int run(void *u) { if (fork() == 0) { close(1); usleep(400000); write(2, "late", 4); _exit(0); } return 0; }
int main(void) { int x = 0; l_init(&O); l_init(&R); struct cork_subprocess *s = cork_subprocess_new(NULL, NULL, run, &O.c, &R.c, &x); CHECK(cork_subprocess_start(s) == 0); CHECK(cork_subprocess_wait(s) == 0); CHECK(R.n == 4); CHECK(R.eofs == 1); return 0; }'''),
dict(id="sp-eof-ignored", prop="C34", edits=[(S,'''            rii_check(cork_stream_consumer_eof(p->consumer));
            rii_check_posix(close(p->fds[0]));
            p->fds[0] = -1;''','''            cork_stream_consumer_eof(p->consumer);
            rii_check_posix(close(p->fds[0]));
            p->fds[0] = -1;''')],
 needs="a consumer that fails at the end of the output", breaks="waiting succeeds", also=["C35"],
 demo=CONS+'''
static int run(void *u) { return 0; }
int main(void) { int x = 0; l_init(&O); O.fail_eof = 1; struct cork_subprocess *s = cork_subprocess_new(NULL, NULL, run, &O.c, NULL, &x); CHECK(cork_subprocess_start(s) == 0); CHECK(cork_subprocess_wait(s) == -1); CHECK(cork_error_occurred()); return 0; }'''),
dict(id="sp-eintr-error", prop="C34", edits=[(S,'''            } else if (errno == EINTR) {
                /* Interrupted by a signal; return so that our wait loop can
                 * catch that. */
                DEBUG("[read]   Interrupted by signal\\n");
                return 0;''','''            } else if (errno == EINTR) {
                /* Interrupted by a signal; skip the rest of this chunk. */
                DEBUG("[read]   Interrupted by signal\\n");
                p->first = false;
                return 0;''')],
 needs="an interrupted first read", breaks="no chunk is marked first",
 demo=CONS+'''
extern ssize_t __real_read(int, void *, size_t); static int k; ssize_t __wrap_read(int fd, void *b, size_t n) { if (k++ == 0) { errno = EINTR; return -1; } return __real_read(fd, b, n); }
static int run(void *u) { write(1, "abc", 3); return 0; }
int main(void) { int x = 0; l_init(&O); struct cork_subprocess *s = cork_subprocess_new(NULL, NULL, run, &O.c, NULL, &x); CHECK(cork_subprocess_start(s) == 0); CHECK(cork_subprocess_wait(s) == 0); CHECK(O.n == 3 && O.firsts == 1); return 0; }''', cflags="-Wl,--wrap=read"),
dict(id="gr-abort-silent", prop="C35", edits=[(S,'''    if (self->pid > 0) {
        CORK_ATTR_UNUSED bool  progress;''','''    if (self->pid > 0 && !cork_read_pipe_is_finished(&self->stdout_pipe)) {
        CORK_ATTR_UNUSED bool  progress;''')],
 needs="aborting a subprocess that has no output consumer, or has closed its output", breaks="it goes on running",
 demo=CONS+'''
static int run(void *u) { sleep(3); int fd = open("alive", O_CREAT | O_WRONLY, 0644); close(fd); return 0; }
int main(void) { int x = 0; struct cork_subprocess_group *g = cork_subprocess_group_new(); cork_subprocess_group_add(g, cork_subprocess_new(NULL, NULL, run, NULL, NULL, &x)); CHECK(cork_subprocess_group_start(g) == 0); CHECK(cork_subprocess_group_abort(g) == 0); sleep(4); CHECK(access("alive", F_OK) != 0); return 0; }'''),
dict(id="gr-finished-exited", prop="C35", edits=[(S,'''        bool  sub_finished = cork_subprocess_is_finished(sub);
        if (!sub_finished) {''','''        bool  sub_finished = (sub->pid == 0) || cork_subprocess_is_finished(sub);
        if (!sub_finished) {''')],
 needs="a member whose output is still held open after it has exited", breaks="waiting returns before the end of the output",
 demo=CONS+'''
static int run(void *u) { if (fork() == 0) { usleep(400000); write(1, "late", 4); _exit(0); } return 0; }
int main(void) { int x = 0; l_init(&O); struct cork_subprocess_group *g = cork_subprocess_group_new(); cork_subprocess_group_add(g, cork_subprocess_new(NULL, NULL, run, &O.c, NULL, &x)); CHECK(cork_subprocess_group_start(g) == 0); CHECK(cork_subprocess_group_wait(g) == 0); CHECK(O.n == 4); CHECK(O.eofs == 1); return 0; }'''),
dict(id="gr-abort-unstarted", prop="C35", edits=[(S,'''    for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
        struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
        rii_check(cork_subprocess_abort(sub));
    }''','''    for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
        struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
        if (sub->pid == 0) {
            /* This and the following ones haven't been started */
            break;
        }
        rii_check(cork_subprocess_abort(sub));
    }''')],
 needs="aborting a group, or a failure in it, after an early member has already finished", breaks="the members behind the finished one go on running",
 demo=CONS+'''
static int quick(void *u) { return 0; }
static int run(void *u) { sleep(3); int fd = open("alive", O_CREAT | O_WRONLY, 0644); close(fd); return 0; }
int main(void) { int x = 0, y = 0; struct cork_subprocess_group *g = cork_subprocess_group_new(); struct cork_subprocess *q = cork_subprocess_new(NULL, NULL, quick, NULL, NULL, &x); cork_subprocess_group_add(g, q); cork_subprocess_group_add(g, cork_subprocess_new(NULL, NULL, run, NULL, NULL, &y)); CHECK(cork_subprocess_group_start(g) == 0);
    while (!cork_subprocess_is_finished(q)) { cork_subprocess_group_drain(g); usleep(1000); } CHECK(cork_subprocess_group_abort(g) == 0); sleep(4); CHECK(access("alive", F_OK) != 0); return 0; }'''),
dict(id="gr-write-eof", prop="C35", edits=[(S,'''    struct cork_write_pipe  *p =
        cork_container_of(consumer, struct cork_write_pipe, consumer);
    return cork_write_pipe_close_write(p);''','''    struct cork_write_pipe  *p =
        cork_container_of(consumer, struct cork_write_pipe, consumer);
    if (p->fds[0] == -1) {
        return 0;
    }
    return cork_write_pipe_close_write(p);''')],
 needs="ending a running subprocess's standard input", breaks="the subprocess never sees the end, and both wait for each other",
 demo=CONS+'''
static int run(void *u) { char b[100]; ssize_t n; while ((n = read(0, b, sizeof b)) > 0) write(1, b, n); return 0; }
int main(void) { int x = 0; alarm(20); l_init(&O); struct cork_subprocess *s = cork_subprocess_new(NULL, NULL, run, &O.c, NULL, &x); CHECK(cork_subprocess_start(s) == 0); CHECK(cork_stream_consumer_data(cork_subprocess_stdin(s), "abc", 3, true) == 0); CHECK(cork_stream_consumer_eof(cork_subprocess_stdin(s)) == 0); CHECK(cork_subprocess_wait(s) == 0); CHECK(O.n == 3); return 0; }'''),
dict(id="th-error-without-failure", prop="C36", edits=[(T,'''    if (CORK_UNLIKELY(rc != 0)) {
        if (CORK_LIKELY(cork_error_occurred())) {''','''    if (CORK_UNLIKELY(rc != 0 || cork_error_occurred())) {
        if (CORK_LIKELY(cork_error_occurred())) {''')],
 needs="a body that succeeds but leaves an error condition behind", breaks="joining reports a failure",
 demo=PRE+'''
static int run(void *u) { cork_error_set_printf(EIO, "handled"); return 0; }
int main(void) { struct cork_thread *t = cork_thread_new("t", NULL, NULL, run); CHECK(cork_thread_start(t) == 0); CHECK(cork_thread_join(t) == 0); return 0; }'''),
dict(id="th-id-race", prop="C36", edits=[(T,'''    self->id = cork_uint_atomic_add(&last_thread_descriptor, 1);
    self->user_data''','''    self->id = last_thread_descriptor + 1;
    cork_uint_atomic_add(&last_thread_descriptor, 1);
    self->user_data''')],
 needs="two threads creating threads at the same time", breaks="two threads get the same identifier",
 demo=PRE+'''
#define N 400000
static cork_thread_id ids[4][N];
static void *mk(void *v) { cork_thread_id *o = v; for (int i = 0; i < N; i++) { struct cork_thread *t = cork_thread_new("t", NULL, NULL, NULL); o[i] = cork_thread_get_id(t); cork_thread_free(t); } return NULL; }
static unsigned char seen[4 * N + 1000];
int main(void) { pthread_t t[4]; for (int i = 0; i < 4; i++) pthread_create(&t[i], NULL, mk, ids[i]); for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
    for (int i = 0; i < 4; i++) for (int j = 0; j < N; j++) { CHECK(ids[i][j] > 0 && ids[i][j] < sizeof seen); CHECK(!seen[ids[i][j]]); seen[ids[i][j]] = 1; } return 0; }'''),
dict(id="th-name-cut", prop="C36", edits=[(T,'''    self->name = cork_strdup(name);
    self->id''','''    self->name = cork_strndup(name, strnlen(name, PTHREADS_MAX_THREAD_NAME_LENGTH - 1));
    self->id'''),(T,'''struct cork_thread *
cork_thread_new(const char *name,''','''#define PTHREADS_MAX_THREAD_NAME_LENGTH  16

struct cork_thread *
cork_thread_new(const char *name,'''),(T,'''#define PTHREADS_MAX_THREAD_NAME_LENGTH  16

static void *''','''static void *''')],
 needs="a name of 16 characters or more", breaks="the thread's name is cut off",
 demo=PRE+'''
int main(void) { struct cork_thread *t = cork_thread_new("a thread with a long name", NULL, NULL, NULL); CHECK(!strcmp(cork_thread_get_name(t), "a thread with a long name")); cork_thread_free(t); return 0; }'''),
dict(id="th-failed-keeps", prop="C36", edits=[(T,'''             self->name, (char *) self->error_message.buf);
        cork_thread_free_private(self);
        return -1;''','''             self->name, (char *) self->error_message.buf);
        cork_strfree(self->name);
        cork_buffer_done(&self->error_message);
        cork_delete(struct cork_thread, self);
        return -1;''')],
 needs="a failing body with user data to free", breaks="the user data is never released",
 demo=PRE+'''
static int freed; static void fr(void *u) { freed++; }
static int run(void *u) { cork_error_set_printf(EIO, "no"); return -1; }
int main(void) { struct cork_thread *t = cork_thread_new("t", &freed, fr, run); CHECK(cork_thread_start(t) == 0); CHECK(cork_thread_join(t) == -1); CHECK(freed == 1); return 0; }'''),
dict(id="th-create-errno", prop="C36", edits=[(T,'''    rc = pthread_create(&thread_id, NULL, cork_thread_pthread_run, self);
    if (CORK_UNLIKELY(rc != 0)) {
        cork_system_error_set_explicit(rc);
        return -1;
    }''','''    self->started = true;
    rc = pthread_create(&thread_id, NULL, cork_thread_pthread_run, self);
    if (CORK_UNLIKELY(rc != 0)) {
        cork_system_error_set_explicit(rc);
        return -1;
    }''')],
 needs="a thread that cannot be created", breaks="it cannot be freed (or started again) afterwards",
 demo=PRE+'''
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *u) { return EAGAIN; }
static int run(void *u) { return 0; }
int main(void) { struct cork_thread *t = cork_thread_new("t", NULL, NULL, run); CHECK(cork_thread_start(t) == -1); CHECK(cork_error_code() == EAGAIN); cork_thread_free(t); return 0; }''', cflags="-Wl,--wrap=pthread_create"),
dict(id="th-current-id", prop="C36", edits=[(T,'''    desc->current_thread = self;
    desc->id = self->id;
    rc = self->run(self->user_data);''','''    desc->id = self->id;
    desc->current_thread = self;
    rc = self->run(self->user_data);
    desc->current_thread = NULL;'''),(T,'''            self->error_code = CORK_UNKNOWN_ERROR;
            cork_buffer_set_string(&self->error_message, "Unknown error");''','''            self->error_code = CORK_ERROR_NONE;
            cork_buffer_set_string(&self->error_message, "Unknown error");''')],
 needs="a body that fails without setting an error", breaks="joining reports success",
 demo=PRE+'''
static int run(void *u) { return -1; }
int main(void) { struct cork_thread *t = cork_thread_new("t", NULL, NULL, run); CHECK(cork_thread_start(t) == 0); CHECK(cork_thread_join(t) == -1); return 0; }'''),
dict(id="on-wait-started", prop="C37", edits=[(B,'''                /* someone else is initializing, spin/wait until done */ \\
                while (name##__once.barrier != 2) { cork_pause(); } \\''','''                /* someone else is initializing, spin/wait until done */ \\
                while (name##__once.barrier == 0) { cork_pause(); } \\''')],
 needs="a caller that arrives while another one is initializing", breaks="it goes on before the initialization has completed",
 demo=PRE+'''
static int done; static void init(void) { usleep(300000); __atomic_store_n(&done, 1, __ATOMIC_SEQ_CST); }
cork_once_barrier(bar); static int bad;
static void *go(void *v) { cork_once(bar, init()); if (!__atomic_load_n(&done, __ATOMIC_SEQ_CST)) bad = 1; return NULL; }
int main(void) { pthread_t t[4]; for (int i = 0; i < 4; i++) pthread_create(&t[i], NULL, go, NULL); for (int i = 0; i < 4; i++) pthread_join(t[i], NULL); CHECK(!bad); return 0; }'''),
dict(id="on-recursive-window", prop="C37", edits=[(B,'''                /* someone else is initializing, is it us? */ \\
                if (name##__once.initializing_thread == \\
                    cork_current_thread_get_id()) { \\''','''                /* someone else is initializing, is it us? */ \\
                if (name##__once.initializing_thread == CORK_THREAD_NONE || \\
                    name##__once.initializing_thread == \\
                    cork_current_thread_get_id()) { \\''')],
 needs="a caller that arrives between another one's claim and its note of who it is", breaks="it takes itself for the initializing thread and goes on",
 demo=PRE+'''
extern cork_thread_id __real_cork_current_thread_get_id(void); static __thread int slow = 1;
cork_thread_id __wrap_cork_current_thread_get_id(void) { if (slow) { slow = 0; usleep(300000); } return __real_cork_current_thread_get_id(); }
static int done; static void init(void) { __atomic_store_n(&done, 1, __ATOMIC_SEQ_CST); }
cork_once_barrier(bar); static int bad;
static void *go(void *v) { if (v) { usleep(100000); slow = 0; } cork_once_recursive(bar, init()); if (!__atomic_load_n(&done, __ATOMIC_SEQ_CST)) bad = 1; return NULL; }
int main(void) { pthread_t t[2]; for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, go, (void *) i); for (int i = 0; i < 2; i++) pthread_join(t[i], NULL); CHECK(!bad); return 0; }''', cflags="-Wl,--wrap=cork_current_thread_get_id"),
dict(id="at-add-split", prop="C37", edits=[(A,"#define cork_size_atomic_sub       __sync_sub_and_fetch","#define cork_size_atomic_sub(ptr, val) \\\n    (*(volatile size_t *) (ptr) -= (val))")],
 needs="two threads subtracting at the same time", breaks="an update is lost",
 demo=PRE+'''
static size_t n = 8000000; static void *go(void *v) { for (int i = 0; i < 2000000; i++) cork_size_atomic_sub(&n, 1); return NULL; }
int main(void) { pthread_t t[4]; for (int i = 0; i < 4; i++) pthread_create(&t[i], NULL, go, NULL); for (int i = 0; i < 4; i++) pthread_join(t[i], NULL); CHECK(n == 0); return 0; }'''),
dict(id="cl-priority-difference", prop="C38", edits=[(P,"if (existing->priority > entry->priority) {","if ((int) ((unsigned) existing->priority - (unsigned) entry->priority) > 0) {")],
 needs="priorities that differ by more than INT_MAX", breaks="the functions are called in the wrong order",
 demo=PRE+'''
static int n; static void first(void) { if (n++ != 0) _exit(1); } static void last(void) { if (n++ != 1) _exit(1); }
int main(void) { cork_cleanup_at_exit(2000000000, last); cork_cleanup_at_exit(-2000000000, first); exit(0); }'''),
dict(id="cl-same-name", prop="C38", edits=[(P,'''        if (existing->priority > entry->priority) {''','''        if (existing->priority == entry->priority &&
            strcmp(existing->name, entry->name) == 0) {
            /* This function has already been registered */
            cork_cleanup_entry_free(entry);
            return;
        }
        if (existing->priority > entry->priority) {'''),(P,"#include <stdlib.h>\n","#include <stdlib.h>\n#include <string.h>\n")],
 needs="two functions registered with the same name and priority", breaks="the second one is never called",
 demo=PRE+'''
static int n; static void a(void) { n++; } static void b(void) { n++; } static void last(void) { fflush(stdout); if (n != 2) _exit(1); }
int main(void) { cork_cleanup_at_exit_named("f", 1, a); cork_cleanup_at_exit_named("f", 1, b); cork_cleanup_at_exit(2, last); exit(0); }'''),
dict(id="cmd-abbreviation", prop="C39", edits=[(C,"if (streq(command_name, (*curr)->name)) {","if (strncmp(command_name, (*curr)->name, strlen((*curr)->name)) == 0) {")],
 needs="a command whose name starts with another one's", breaks="the wrong command is run",
 demo=PRE+'''
static void a(int c, char **v) { exit(1); } static void b(int c, char **v) { exit(0); }
static struct cork_command l1 = cork_leaf_command("add", NULL, NULL, NULL, NULL, a), l2 = cork_leaf_command("add-all", NULL, NULL, NULL, NULL, b);
static struct cork_command *set[] = { &l1, &l2, NULL }; static struct cork_command root = cork_command_set("r", NULL, NULL, set);
int main(void) { char *v[] = { "r", "add-all", NULL }; cork_command_main(&root, 2, v); return 2; }'''),
dict(id="cmd-help-leaf-name", prop="C39", edits=[(C,'''        cork_command_add_breadcrumb(subcommand);
        command = subcommand;''','''        if (argc > 1) {
            cork_command_add_breadcrumb(subcommand);
        }
        command = subcommand;''')],
 needs="help on a command", breaks="the usage line lacks the last name",
 demo=PRE+'''
static void a(int c, char **v) { exit(1); }
static struct cork_command l1 = cork_leaf_command("add", NULL, "<x>", NULL, NULL, a);
static struct cork_command *set[] = { &l1, NULL }; static struct cork_command root = cork_command_set("r", NULL, NULL, set);
int main(void) { char *v[] = { "r", "help", "add", NULL }; char b[200] = ""; freopen("out", "w+", stdout); cork_command_main(&root, 3, v); fflush(stdout); rewind(stdout); fread(b, 1, 199, stdout); return strncmp(b, "Usage: r add <x>", 16) != 0; }'''),
dict(id="cmd-help-unknown-status", prop="C39", edits=[(C,'''                   "Usage:%s <command> [<options>]\\n",
                   argv[0], cork_command_breadcrumbs());
            exit(EXIT_FAILURE);''','''                   "Usage:%s <command> [<options>]\\n",
                   argv[0], cork_command_breadcrumbs());
            return;''')],
 needs="help on an unknown command", breaks="the exit status is that of success",
 demo=PRE+'''
static void a(int c, char **v) { exit(1); }
static struct cork_command l1 = cork_leaf_command("add", NULL, "<x>", NULL, NULL, a);
static struct cork_command *set[] = { &l1, NULL }; static struct cork_command root = cork_command_set("r", NULL, NULL, set);
int main(void) { if (fork() == 0) { char *v[] = { "r", "help", "nothing", NULL }; exit(cork_command_main(&root, 3, v)); } int s; wait(&s); return !(WIFEXITED(s) && WEXITSTATUS(s) == 1); }'''),
dict(id="cmd-format-name", prop="C39", edits=[(C,'''    cork_buffer_append_printf(&breadcrumbs_buf, " %s", command->name);''','''    cork_buffer_append(&breadcrumbs_buf, " ", 1);
    cork_buffer_append_printf(&breadcrumbs_buf, command->name);''')],
 needs="a command name with a percent sign", breaks="the name is taken for a format",
 demo=PRE+'''
static void a(int c, char **v) { exit(1); }
static struct cork_command l1 = cork_leaf_command("100%%", NULL, "<x>", NULL, NULL, a);
static struct cork_command *set[] = { &l1, NULL }; static struct cork_command root = cork_command_set("r", NULL, NULL, set);
int main(void) { char *v[] = { "r", "help", "100%%", NULL }; char b[200] = ""; freopen("out", "w+", stdout); cork_command_main(&root, 3, v); fflush(stdout); rewind(stdout); fread(b, 1, 199, stdout); return strncmp(b, "Usage: r 100%% <x>", 18) != 0; }'''),
dict(id="cmd-options-later-help", prop="C39", edits=[(C,'''        argc -= option_count;
        argv += option_count;''','''        if (option_count > argc) {
            option_count = argc;
        }
        while (option_count-- > 0 && !streq(argv[0], "--")) {
            argc--;
            argv++;
        }''')],
 needs="an option parser that consumes a -- argument", breaks="the arguments left for the body start too early",
 demo=PRE+'''
static int opts(int c, char **v) { int i = 1; while (i < c && v[i][0] == '-') { i++; if (!strcmp(v[i - 1], "--")) break; } return i; }
static void a(int c, char **v) { exit(!(c == 1 && !strcmp(v[0], "x"))); }
static struct cork_command root = cork_leaf_command("r", NULL, NULL, NULL, opts, a);
int main(void) { char *v[] = { "r", "-a", "--", "x", NULL }; cork_command_main(&root, 4, v); return 2; }'''),
]
