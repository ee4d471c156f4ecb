/* vprobe is every program a simulated script runs. It reports its argument
 * list to the simulator and then does exactly what the simulator tells it. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

static int sock;
static char buf[1 << 16];

static void all_out(const void *p, size_t n) {
	const char *c = p;
	while (n) {
		ssize_t k = send(sock, c, n, MSG_NOSIGNAL);
		if (k < 0 && errno == EINTR)
			continue;
		if (k <= 0)
			_exit(250);
		c += k;
		n -= k;
	}
}

static void all_in(void *p, size_t n) {
	char *c = p;
	while (n) {
		ssize_t k = recv(sock, c, n, 0);
		if (k < 0 && errno == EINTR)
			continue;
		if (k <= 0)
			_exit(251);
		c += k;
		n -= k;
	}
}

static uint32_t num(void) {
	uint32_t v;
	all_in(&v, 4);
	return v;
}

static void put(uint32_t v) { all_out(&v, 4); }

static void reply(char k, uint32_t v) {
	char c[5] = {k};
	memcpy(c + 1, &v, 4);
	all_out(c, 5);
}

static int ready(int fd, short ev) {
	struct pollfd p = {fd, ev, 0};
	for (;;) {
		int k = poll(&p, 1, 10000);
		if (k < 0 && errno == EINTR)
			continue;
		return k;
	}
}

static void launch(int argc, char **argv) {
	/* vlaunch MODE PROG ARGS...: fixes the dispositions the shell inherits. */
	if (argc < 3)
		_exit(252);
	signal(SIGXFSZ, argv[1][0] == 'i' ? SIG_IGN : SIG_DFL);
	signal(SIGPIPE, SIG_DFL);
	execv(argv[2], argv + 2);
	_exit(253);
}

int main(int argc, char **argv) {
	const char *base = strrchr(argv[0], '/');
	base = base ? base + 1 : argv[0];
	if (!strcmp(base, "vlaunch"))
		launch(argc, argv);
	struct rlimit rl;
	if (getrlimit(RLIMIT_NOFILE, &rl) == 0) {
		rl.rlim_cur = rl.rlim_max;
		setrlimit(RLIMIT_NOFILE, &rl);
	}
	const char *path = getenv("VSIM_SOCK");
	struct sockaddr_un a = {.sun_family = AF_UNIX};
	if (!path || strlen(path) >= sizeof a.sun_path)
		return 254;
	strcpy(a.sun_path, path);
	/* Out of the way of the descriptors a script could name. */
	int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
	sock = fcntl(s, F_DUPFD_CLOEXEC, 100);
	if (sock < 0)
		sock = s;
	else
		close(s);
	if (connect(sock, (struct sockaddr *)&a, sizeof a))
		return 255;
	put(argc);
	for (int i = 0; i < argc; i++) {
		put(strlen(argv[i]));
		all_out(argv[i], strlen(argv[i]));
	}
	for (int i = 0; i < 2; i++) { /* which pipes it is connected to */
		struct stat st;
		put(fstat(i, &st) == 0 && S_ISFIFO(st.st_mode) ? (uint32_t)st.st_ino : 0);
	}
	for (;;) {
		char c;
		all_in(&c, 1);
		uint32_t v = num();
		ssize_t k;
		switch (c) {
		case 'q':
			_exit(v);
		case 'k':
			signal(v, SIG_DFL);
			raise(v);
			_exit(249);
		case 'r':
			if (v > sizeof buf)
				v = sizeof buf;
			if (ready(0, POLLIN) == 0) {
				reply('T', 0);
				break;
			}
			k = read(0, buf, v);
			if (k < 0) {
				reply('E', errno);
				break;
			}
			reply('d', k);
			all_out(buf, k);
			break;
		case 'w':
			if (v > sizeof buf)
				_exit(248);
			all_in(buf, v);
			if (ready(1, POLLOUT) == 0) {
				reply('T', 0);
				break;
			}
			k = write(1, buf, v);
			reply(k < 0 ? 'E' : 'o', k < 0 ? errno : k);
			break;
		case 'e':
			if (v > sizeof buf)
				_exit(248);
			all_in(buf, v);
			k = write(2, buf, v);
			reply('o', v);
			break;
		case 'c':
			close(v);
			reply('o', 0);
			break;
		case 'p': /* until the reader of the output is gone */
			reply(ready(1, 0) == 1 ? 'o' : 'T', 0);
			break;
		case 'i':
			signal(SIGPIPE, SIG_IGN);
			reply('o', 0);
			break;
		case 'l': { /* v: resource, then process and soft limit */
			uint32_t pid = num(), soft = num();
			struct rlimit old;
			int e = prlimit(pid, v, NULL, &old);
			if (!e) {
				old.rlim_cur = soft == 0xffffffffu ? old.rlim_max : soft;
				e = prlimit(pid, v, &old, NULL);
			}
			reply(e ? 'E' : 'o', e ? errno : 0);
			break;
		}
		default:
			_exit(247);
		}
	}
}
