/*@unit
property = "P26"
functions = ["process_open", "process_close"]
lemma = "whichever call fails, every descriptor opened so far is closed once and nothing is started; on success the parent keeps exactly its three ends, the child has exactly the other ends as its standard streams; closing closes each end once, waits for that child and gives its exit status"
timeout = 150
unwind = 10
fuzzlen = 60
stubs = ["pipe, close, posix_spawn*, waitpid (system): each may fail; a pipe gives two new descriptors"]
assume = ["process_open: the standard streams are open in the parent, so new descriptors are above 2; waitpid is not interrupted"]
*/
#include "vc.h"
#include <spawn.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include "include/proclib.h"
static int fd[6], n_fd, open_[6], err, inited, destroyed, failed, spawned, waited, status, pipes_;
static int std_[3], child[6];   /* the child: what its standard streams are (9: what the parent's are), which pipe ends are open in it */
static struct process *P;
static int fdid(int f) { for(int i = 0; i < 6; i++) if(i < n_fd && fd[i] == f) return i; return -1; }
static int fails(void) { int r = nd_u8() % 16 == 5; if(r) failed = 1; return r; }
static int s_pipe(int *p) {
	if(fails()) { err = EMFILE; return -1; }
	CHECK(n_fd <= 4, "three pipes");
	for(int k = 0; k < 2; k++) {
		int f = (int) nd_range(3, 1 << 20);
#ifdef VC_NATIVE
		f = 3 + n_fd;
#endif
		ASSUME(fdid(f) < 0); open_[n_fd] = child[n_fd] = 1; fd[n_fd++] = f; p[k] = f;
	}
	return 0;
}
static int s_close(int f) { int i = fdid(f); CHECK(i >= 0 && open_[i], "closes an open descriptor of its own"); open_[i] = 0; err = nd_u8(); return 0; }
static int s_init(posix_spawn_file_actions_t *a) { CHECK(a == &P->fa, "its actions"); if(fails()) return ENOMEM; inited++; for(int i = 0; i < 3; i++) std_[i] = 9; return 0; }
static int s_destroy(posix_spawn_file_actions_t *a) { CHECK(a == &P->fa && inited && !destroyed, "destroys the actions once"); destroyed++; return 0; }
static int s_addclose(posix_spawn_file_actions_t *a, int f) {
	CHECK(inited && !destroyed, "actions that exist"); if(fails()) return ENOMEM;
	if(f >= 0 && f < 3) std_[f] = -1; else { int i = fdid(f); CHECK(i >= 0, "a descriptor of its own"); child[i] = 0; }
	return 0;
}
static int s_adddup2(posix_spawn_file_actions_t *a, int f, int g) {
	CHECK(inited && !destroyed, "actions that exist"); int i = fdid(f); CHECK(i >= 0 && child[i], "a descriptor open in the child"); CHECK(g >= 0 && g < 3, "onto a standard stream");
	if(fails()) return ENOMEM; std_[g] = i; return 0;
}
static char *g_argv[2];
static int s_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *at, char *const argv[], char *const env[]) {
	CHECK(inited && !destroyed && !spawned && file == g_argv[0] && argv == g_argv, "starts the program asked for");
	CHECK(std_[0] == 0 && std_[1] == 3 && std_[2] == 5, "the child reads the first pipe and writes the other two");
	for(int i = 0; i < 6; i++) CHECK(!child[i], "and has nothing else of them");
	if(fails()) return ENOENT; spawned = 1; *pid = 4711; return 0;
}
static pid_t s_waitpid(pid_t p, int *st, int opt) { CHECK(p == 4711 && opt == 0 && spawned && !waited, "waits for the child once"); waited = 1; *st = status; return p; }
#undef errno
#define errno err
#define pipe s_pipe
#define close s_close
#define posix_spawn_file_actions_init s_init
#define posix_spawn_file_actions_destroy s_destroy
#define posix_spawn_file_actions_addclose s_addclose
#define posix_spawn_file_actions_adddup2 s_adddup2
#define posix_spawnp s_spawnp
#define waitpid s_waitpid
#include "src/proclib/process.c"
#undef close
void harness(void) {
	VC_INIT(); n_fd = err = inited = destroyed = failed = spawned = waited = 0; for(int i = 0; i < 6; i++) open_[i] = child[i] = 0;
	static struct process p; P = &p; static char a0[] = "x"; g_argv[0] = a0; g_argv[1] = NULL;
	int code = nd_u8(); status = code << 8;
	int r = process_open(&p, g_argv), i;
	CHECK(r == (failed ? -1 : 0) && spawned == !failed, "fails exactly when a call does");
	if(r) { for(i = 0; i < 6; i++) CHECK(!open_[i], "nothing stays open"); CHECK(inited == destroyed, "nothing of the actions stays"); }
	else {
		CHECK(p.fds[0] == fd[1] && p.fds[1] == fd[2] && p.fds[2] == fd[4], "the ends facing the child");
		for(i = 0; i < 6; i++) CHECK(open_[i] == (i == 1 || i == 2 || i == 4), "exactly those are open"); CHECK(!destroyed, "released when closed");
		r = process_close(&p); CHECK(r == code && waited, "the exit status"); for(i = 0; i < 6; i++) CHECK(!open_[i], "all closed"); CHECK(destroyed, "actions released");
	}
	REACH("end");
}
