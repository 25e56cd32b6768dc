#include "pbt.hpp"
#include <dice/template-library/sandbox.hpp>

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <numeric>
#include <optional>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace dtl = dice::template_library;
using R = dtl::SubProcessResult;

namespace {
	// faults
	int fork_fail = 0;      // errno of the next fork, 0: none
	int eintr = 0;          // how many of the next waitpid calls are interrupted
	int forks_failed = 0;

	struct Shared {
		int escaped;     // a child came back from the sandbox
		int nested_bad;
		int atexit_ran;
		int destroyed;
		int ran;
	};
	Shared *shared = nullptr;
	pid_t worker = 0;
	int statics[4];

	void at_exit() {
		if (getpid() != worker && shared) ++shared->atexit_ran;
	}

	void setup() {
		if (shared) return;
		shared = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		worker = getpid();
		std::atexit(at_exit);
		rlimit none{0, 0};
		setrlimit(RLIMIT_CORE, &none);
	}

	struct Guarded {
		pid_t owner = getpid();
		~Guarded() {
			if (getpid() != owner) ++shared->destroyed;
		}
	};

	enum struct End { fall, zero, code, uexit, uexit_zero, throws, throws_std, terminate, abort, trap, null_call, sig, throws_after_catch };
	struct Act {
		int kind;
		size_t a, b;
	};
	struct Plan {
		std::vector<Act> acts;
		End end = End::fall;
		int arg = 0;
		int form = 0;
		std::vector<Plan> inner;
	};

	// every signal whose default action ends the process
	constexpr int sigs[] = {SIGINT, SIGILL, SIGABRT, SIGFPE, SIGSEGV, SIGTERM, SIGHUP, SIGQUIT, SIGTRAP, SIGBUS, SIGUSR1, SIGUSR2, SIGPIPE, SIGALRM, SIGXCPU, SIGXFSZ, SIGVTALRM, SIGPROF, SIGSYS, SIGKILL, SIGSTKFLT, SIGPOLL, SIGPWR};

	bool int_end(Plan const &p) { return p.end == End::zero || p.end == End::code; }

	R expected(Plan const &p) {
		switch (p.end) {
			case End::fall:
			case End::zero:
			case End::uexit_zero: return R::ExitSuccess;
			case End::code: return p.arg % 256 == 0 ? R::ExitSuccess : R::ExitFailure;
			case End::uexit: return R::ExitFailure;
			case End::throws:
			case End::throws_std:
			case End::throws_after_catch:
			case End::terminate:
			case End::abort: return R::Aborted;
			case End::trap: return R::IllegalInstruction;
			case End::null_call: return R::SegmentationFault;
			case End::sig: return static_cast<R>(p.arg);
		}
		return R::ExitSuccess;
	}
	bool flushes(Plan const &p) { return p.end == End::fall || p.end == End::zero || p.end == End::code; }

	Plan gen_plan(pbt::Ctx &ctx, int depth) {
		Plan p;
		size_t const n = ctx.size(5);
		for (size_t i = 0; i < n; ++i) {
			int kind = static_cast<int>(ctx.below(depth < 2 ? 14 : 13));
			p.acts.push_back({kind, ctx.below(64), ctx.below(1000)});
			if (kind == 13) p.inner.push_back(gen_plan(ctx, depth + 1));
		}
		p.end = static_cast<End>(ctx.below(13));
		if (p.end == End::code) p.arg = static_cast<int>(ctx.pick<int64_t>({1, 2, 7, 42, 127, 128, 129, 134, 139, 200, 254, 255, -1, -2, 257, 0}));
		if (p.end == End::uexit) p.arg = 1 + static_cast<int>(ctx.below(255));
		if (p.end == End::sig) p.arg = ctx.flip() ? ctx.flip() ? SIGRTMIN + static_cast<int>(ctx.below(static_cast<size_t>(SIGRTMAX - SIGRTMIN + 1))) : sigs[ctx.below(6)] : sigs[ctx.below(std::size(sigs))];
		p.form = static_cast<int>(ctx.below(6));
		return p;
	}

	struct World {
		std::vector<int> mem;
		std::unique_ptr<std::vector<std::string>> heap;
		FILE *file = nullptr;
		std::string file_path, cout_path;
		std::filebuf cout_buf;
		int spare_fd = -1;
	};

	[[gnu::noinline]] int deep(int n) {
		char volatile block[256];
		block[0] = static_cast<char>(n);
		return n == 0 ? block[0] : deep(n - 1) + block[0] * 0;
	}

	bool check_run(Plan const &p, World &w);

	void child_acts(Plan const &p, World &w) {
		++shared->ran;
		std::set_terminate([] { std::abort(); }); // no message
		size_t inner = 0;
		for (auto const &a : p.acts) {
			switch (a.kind) {
				case 0:
				case 1:
					if (!w.mem.empty()) w.mem[a.a % w.mem.size()] += static_cast<int>(a.b) + 1;
					break;
				case 2: statics[a.a % 4] += static_cast<int>(a.b) + 1; break;
				case 3:
					w.heap->push_back(std::string(a.b, 'x'));
					w.mem.clear();
					break;
				case 4: w.heap.reset(new std::vector<std::string>(a.a)); break;
				case 5: std::fprintf(w.file, "c%zu.", a.a); break;
				case 6: std::cout << "c" << a.a << "."; break;
				case 7: setenv("C31_VAR", "child", 1); break;
				case 8: (void) !chdir("/"); break;
				case 9: umask(0); break;
				case 10:
					close(w.spare_fd);
					for (int i = 0; i < 3; ++i) (void) dup(2);
					break;
				case 11: {
					// ignored and blocked signals of the child do not matter to the caller
					std::signal(SIGUSR1, SIG_IGN);
					sigset_t s;
					sigemptyset(&s);
					sigaddset(&s, SIGHUP);
					sigprocmask(SIG_BLOCK, &s, nullptr);
					std::signal(SIGUSR1, SIG_DFL);
					sigprocmask(SIG_UNBLOCK, &s, nullptr);
					break;
				}
				case 12:
					(void) deep(static_cast<int>(a.b));
					raise(SIGCHLD);
					raise(SIGURG);
					usleep(static_cast<useconds_t>(a.a * 20));
					break;
				default:
					// the nested sandbox inherits an empty pending output: it is flushed before it starts
					if (!check_run(p.inner[inner++], w)) ++shared->nested_bad;
					break;
			}
		}
	}

	int child_end(Plan const &p) {
		switch (p.end) {
			case End::code: return p.arg;
			case End::uexit: _exit(p.arg);
			case End::uexit_zero: _exit(0);
			case End::throws: throw 5;
			case End::throws_std: throw std::runtime_error{"thrown"};
			case End::throws_after_catch:
				try {
					throw 1;
				} catch (int) {
					throw;
				}
			case End::terminate: {
				struct T {
					~T() noexcept { std::abort(); }
				} t;
				return 3;
			}
			case End::abort: std::abort();
			case End::trap: __builtin_trap();
			case End::null_call: raise(SIGSEGV); return 0;
			case End::sig: raise(p.arg); return 0;
			default: return 0;
		}
	}

	Plan const *fp_plan = nullptr;
	World *fp_world = nullptr;
	int fp_int() {
		Plan const &p = *fp_plan; // a nested sandbox sets it, too
		child_acts(p, *fp_world);
		return child_end(p);
	}
	void fp_void() { (void) fp_int(); }

	struct MoveOnly {
		std::unique_ptr<int> p = std::make_unique<int>(1);
		Plan const *plan;
		World *w;
		int operator()() && {
			child_acts(*plan, *w);
			return child_end(*plan) + (*p - 1);
		}
	};

	R run(Plan const &p, World &w) {
		Guarded guard;
		pid_t const me = getpid();
		std::optional<R> res;
		try {
			// bodies without a code can also be functions returning nothing
			bool const no_code = p.end != End::code && p.end != End::terminate;
			switch (p.form) {
				case 0:
					if (no_code) {
						res = DICE_SANDBOX {
							child_acts(p, w);
							(void) child_end(p);
						};
						break;
					}
					[[fallthrough]];
				case 1:
					res = DICE_SANDBOX {
						Guarded inner;
						inner.owner = getpid();
						child_acts(p, w);
						return child_end(p);
					};
					break;
				case 2:
					res = DICE_SANDBOX noexcept {
						child_acts(p, w);
						return child_end(p);
					};
					break;
				case 3: {
					MoveOnly f{.plan = &p, .w = &w};
					res = dtl::detail_sandbox::SandBox{} + std::move(f);
					break;
				}
				case 4: {
					fp_plan = &p;
					fp_world = &w;
					if (no_code) res = dtl::detail_sandbox::SandBox{} + &fp_void;
					else res = dtl::detail_sandbox::SandBox{} + &fp_int;
					break;
				}
				default: {
					res = DICE_SANDBOX mutable -> int {
						child_acts(p, w);
						return child_end(p);
					};
					break;
				}
			}
		} catch (...) {
			if (getpid() != me) {
				++shared->escaped;
				_exit(0);
			}
			throw;
		}
		if (getpid() != me) {
			++shared->escaped;
			_exit(0);
		}
		return *res;
	}

	bool check_run(Plan const &p, World &w) {
		R const want = expected(p);
		R const got = run(p, w);
		return got == want;
	}

	// what a body writes; (x) if it may be lost because the process dies with x not flushed
	std::string child_text(Plan const &p, int kind) {
		std::string out, pending;
		size_t inner = 0;
		for (auto const &a : p.acts) {
			if (a.kind == kind) pending += "c" + std::to_string(a.a) + ".";
			if (a.kind == 13) {
				// flushed before the nested child starts
				out += pending + child_text(p.inner[inner++], kind);
				pending.clear();
			}
		}
		if (flushes(p)) return out + pending;
		return pending.empty() ? out : out + "(" + pending + ")";
	}

	bool matches(std::string_view text, std::string_view pat) {
		if (pat.empty()) return text.empty();
		if (pat[0] == '(') {
			size_t const end = pat.find(')');
			if (matches(text, pat.substr(end + 1))) return true;
			std::string_view const inside = pat.substr(1, end - 1);
			return text.starts_with(inside) && matches(text.substr(inside.size()), pat.substr(end + 1));
		}
		return !text.empty() && text[0] == pat[0] && matches(text.substr(1), pat.substr(1));
	}

	std::string slurp(std::string const &path) {
		std::ifstream f(path);
		return {std::istreambuf_iterator<char>(f), {}};
	}

	size_t fd_count() {
		size_t n = 0;
		for (int i = 0; i < 128; ++i) n += fcntl(i, F_GETFD) != -1;
		return n;
	}

	void on_signal(int) {}

	std::string show(Plan const &p) {
		std::string s = "form " + std::to_string(p.form) + " acts";
		for (auto const &a : p.acts) s += " " + std::to_string(a.kind);
		s += " end " + std::to_string(static_cast<int>(p.end)) + "/" + std::to_string(p.arg);
		for (auto const &i : p.inner) s += " {" + show(i) + "}";
		return s;
	}

	// puts everything of the caller back at the end
	struct Restore {
		std::streambuf *old_cout = nullptr;
		sigset_t mask;
		std::vector<std::pair<int, struct sigaction>> actions;
		pid_t own = -1;
		World *w;
		Restore() { sigprocmask(SIG_SETMASK, nullptr, &mask); }
		~Restore() {
			itimerval off{};
			setitimer(ITIMER_REAL, &off, nullptr);
			if (old_cout) std::cout.rdbuf(old_cout);
			// pending ones are dropped by ignoring them
			for (auto &[s, a] : actions) {
				std::signal(s, SIG_IGN);
			}
			sigprocmask(SIG_SETMASK, &mask, nullptr);
			for (auto &[s, a] : actions) sigaction(s, &a, nullptr);
			if (own > 0) {
				kill(own, SIGKILL);
				waitpid(own, nullptr, 0);
			}
			if (w->file) fclose(w->file);
			w->cout_buf.close();
			if (w->spare_fd >= 0) close(w->spare_fd);
			unlink(w->file_path.c_str());
			unlink(w->cout_path.c_str());
		}
		void set(int s, void (*h)(int), int flags = 0) {
			struct sigaction now{}, old{};
			now.sa_handler = h;
			now.sa_flags = flags;
			sigaction(s, &now, &old);
			if (std::none_of(actions.begin(), actions.end(), [&](auto &x) { return x.first == s; })) actions.emplace_back(s, old);
		}
	};
}// namespace

extern "C" {
pid_t __real_fork();
pid_t __real_waitpid(pid_t, int *, int);
pid_t __wrap_fork() {
	if (fork_fail) {
		errno = fork_fail;
		fork_fail = 0;
		++forks_failed;
		return -1;
	}
	return __real_fork();
}
pid_t __wrap_waitpid(pid_t p, int *st, int opt) {
	if (eintr > 0) {
		--eintr;
		errno = EINTR;
		return -1;
	}
	return __real_waitpid(p, st, opt);
}
}

PBT_PROP(sandboxes, 9000) {
	setup();
	World w;
	Restore restore;
	restore.w = &w;
	*shared = {};
	std::string const tag = std::to_string(getpid());
	w.file_path = "c31f." + tag;
	w.cout_path = "c31c." + tag;
	w.mem.resize(1 + ctx.below(40));
	std::iota(w.mem.begin(), w.mem.end(), 5);
	w.heap = std::make_unique<std::vector<std::string>>(ctx.below(5), "heap string that is not small at all");
	for (int i = 0; i < 4; ++i) statics[i] = i;
	unlink(w.file_path.c_str());
	unlink(w.cout_path.c_str());
	w.file = std::fopen(w.file_path.c_str(), "a");
	w.cout_buf.open(w.cout_path, std::ios::out | std::ios::app);
	w.spare_fd = open("/dev/null", O_RDONLY);
	PBT_CHECK(w.file && w.spare_fd >= 0);
	restore.old_cout = std::cout.rdbuf(&w.cout_buf);
	unsetenv("C31_VAR");
	bool special = false;

	// the state of the caller
	sigset_t blocked;
	sigemptyset(&blocked);
	if (ctx.chance(1, 2)) {
		special = true;
		size_t const n = 1 + ctx.below(6);
		for (size_t i = 0; i < n; ++i) {
			int s = ctx.flip() ? sigs[ctx.below(std::size(sigs))] : ctx.flip() ? SIGRTMIN + static_cast<int>(ctx.below(20)) : SIGWINCH;
			if (s == SIGKILL || s == SIGSEGV || s == SIGBUS || s == SIGILL || s == SIGFPE || s == SIGALRM || s == SIGABRT) s = SIGTERM;
			size_t const how = ctx.below(3);
			if (how == 0) restore.set(s, SIG_IGN);
			else if (how == 1) restore.set(s, on_signal, ctx.flip() ? SA_RESTART : 0);
			else sigaddset(&blocked, s);
			PBT_LOG("caller: signal " << s << " " << (how == 0 ? "ignored" : how == 1 ? "handled" : "blocked"));
		}
		if (ctx.flip()) sigaddset(&blocked, SIGSEGV), sigaddset(&blocked, SIGABRT), sigaddset(&blocked, SIGILL);
		sigprocmask(SIG_BLOCK, &blocked, nullptr);
	}
	// a child of the caller's own
	int own_code = 0;
	bool own_done = false;
	if (ctx.chance(1, 4)) {
		special = true;
		own_code = 1 + static_cast<int>(ctx.below(200));
		own_done = ctx.flip();
		restore.own = __real_fork();
		if (restore.own == 0) {
			if (!own_done) {
				for (;;) pause();
			}
			_exit(own_code);
		}
		PBT_LOG("caller: own child " << (own_done ? "that ends with " : "running ") << own_code);
		if (own_done && ctx.flip()) usleep(1500);
	}
	bool const timer = ctx.chance(1, 8);
	if (timer) {
		PBT_LOG("caller: interrupting timer");
		special = true;
		restore.set(SIGALRM, on_signal);
		itimerval it{{0, 700}, {0, 300}};
		setitimer(ITIMER_REAL, &it, nullptr);
	}
	size_t const fds = fd_count();
	mode_t const um_before = umask(022);
	umask(um_before);
	sigset_t mask;
	sigprocmask(SIG_SETMASK, nullptr, &mask);

	std::string file_want, cout_want;
	size_t const runs = 1 + ctx.below(4);
	for (size_t k = 0; k < runs; ++k) {
		Plan const p = gen_plan(ctx, 0);
		if (!p.acts.empty() || p.end > End::code) ctx.nontrivial();
		PBT_LOG(show(p));
		if (ctx.flip()) std::fprintf(w.file, "p%zu.", k), file_want += "p" + std::to_string(k) + ".";
		if (ctx.flip()) std::cout << "p" << k << ".", cout_want += "p" + std::to_string(k) + ".";
		eintr = ctx.chance(1, 5) ? 1 + static_cast<int>(ctx.below(4)) : 0;
		fork_fail = ctx.chance(1, 10) ? ctx.pick<int>({EAGAIN, ENOMEM}) : 0;
		special |= eintr || fork_fail;
		int const fail_code = fork_fail;
		int const failed_before = forks_failed;
		*shared = {};
		auto const mem = w.mem;
		auto const heap = *w.heap;
		bool threw = false;
		R got{};
		int code = 0;
		try {
			got = run(p, w);
		} catch (std::system_error const &e) {
			threw = true;
			code = e.code().value();
		}
		eintr = 0;
		fork_fail = 0;
		if (forks_failed != failed_before) {
			PBT_CHECK_MSG(threw && code == fail_code, "the process could not be created (" << fail_code << "): threw " << threw << " code " << code);
			PBT_CHECK(shared->ran == 0);
		} else {
			PBT_CHECK_MSG(!threw, "threw code " << code);
			PBT_CHECK_MSG(got == expected(p), "result " << static_cast<int>(got) << ", expected " << static_cast<int>(expected(p)));
			PBT_CHECK(shared->ran >= 1);
			file_want += child_text(p, 5);
			cout_want += child_text(p, 6);
		}
		PBT_CHECK_MSG(shared->escaped == 0, "the child came back");
		PBT_CHECK_MSG(shared->nested_bad == 0, "wrong result of a nested sandbox");
		PBT_CHECK_MSG(shared->atexit_ran == 0, "atexit handlers of the caller ran in the child");
		PBT_CHECK_MSG(shared->destroyed == 0, "objects of the caller were destroyed in the child");
		PBT_CHECK_MSG(mem == w.mem && heap == *w.heap, "memory of the caller changed");
		for (int i = 0; i < 4; ++i) PBT_CHECK(statics[i] == i);
		PBT_CHECK(getenv("C31_VAR") == nullptr && access(w.file_path.c_str(), F_OK) == 0);
		mode_t const um = umask(022);
		umask(um);
		PBT_CHECK(um == um_before);
		PBT_CHECK_MSG(fd_count() == fds && fcntl(w.spare_fd, F_GETFD) != -1, "open descriptors changed from " << fds << " to " << fd_count() << " (spare " << fcntl(w.spare_fd, F_GETFD) << ")");
		sigset_t now;
		sigprocmask(SIG_SETMASK, nullptr, &now);
		for (int s = 1; s < 65; ++s) {
			if (s == 32 || s == 33) continue;
			PBT_CHECK_MSG(sigismember(&now, s) == sigismember(&mask, s), "signal mask changed for " << s);
		}
		for (auto const &[s, old] : restore.actions) {
			struct sigaction a{};
			sigaction(s, nullptr, &a);
			PBT_CHECK_MSG(a.sa_handler != SIG_DFL, "disposition of signal " << s << " was reset");
		}
	}
	itimerval off{};
	setitimer(ITIMER_REAL, &off, nullptr);
	// children: only the caller's own is there
	if (restore.own > 0) {
		if (!own_done) {
			PBT_CHECK_MSG(__real_waitpid(restore.own, nullptr, WNOHANG) == 0, "the caller's own child is gone");
		} else {
			int st = 0;
			pid_t const r = __real_waitpid(restore.own, &st, 0);
			pid_t const own = std::exchange(restore.own, -1);
			PBT_CHECK_MSG(r == own && WIFEXITED(st) && WEXITSTATUS(st) == own_code, "the caller's own child was waited for by the sandbox");
		}
	}
	if (restore.own < 0) {
		PBT_CHECK_MSG(__real_waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD, "a child process is left");
	} else {
		kill(restore.own, SIGKILL);
		__real_waitpid(std::exchange(restore.own, -1), nullptr, 0);
		PBT_CHECK_MSG(__real_waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD, "a child process is left");
	}
	std::fflush(w.file);
	std::cout.flush();
	std::string const f = slurp(w.file_path), c = slurp(w.cout_path);
	PBT_CHECK_MSG(matches(f, file_want), "file output <" << f << ">, expected <" << file_want << ">");
	PBT_CHECK_MSG(matches(c, cout_want), "std::cout output <" << c << ">, expected <" << cout_want << ">");
	if (special) ctx.nontrivial();
}
