#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

#ifdef PBT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t allocated_bytes() { return __sanitizer_get_current_allocated_bytes(); }
// the limit is enforced by a thread
#ifdef PBT_SINGLE_THREADED
#define PBT_RSS_LIMIT
#else
#define PBT_RSS_LIMIT "hard_rss_limit_mb=3500:"
#endif
extern "C" char const *__asan_default_options() {
	return "detect_leaks=0:abort_on_error=0:exitcode=88:handle_abort=0:allocator_may_return_null=1:" PBT_RSS_LIMIT "quarantine_size_mb=16:detect_stack_use_after_return=0:print_legend=0:handle_segv=1:allow_user_segv_handler=1:malloc_context_size=12:fast_unwind_on_malloc=1";
}
extern "C" char const *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0:exitcode=89"; }
#else
static size_t allocated_bytes() { return 0; }
#endif

namespace pbt {
	namespace {
		std::vector<Prop> &props() {
			static std::vector<Prop> p;
			return p;
		}

		constexpr size_t max_labels = 64;
		struct LabelTab {
			char const *names[max_labels]{};
			uint64_t counts[max_labels]{};
		};
		LabelTab labels;
		bool fuzzing = false;

		struct Shared {
			size_t volatile rec_len = 0;
			int volatile failed = 0;
			char msg[4096]{};
			uint64_t rec[Ctx::max_tape];
		};

		Shared *make_shared_mem() {
			void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			if (p == MAP_FAILED) {
				perror("mmap");
				_exit(3);
			}
			return new (p) Shared{};
		}

		uint64_t mix(uint64_t a, uint64_t b) {
			Rng r{a ^ (b * 0xd6e8feb86659fd93ULL)};
			r.next();
			return r.next();
		}

		uint64_t str_hash(char const *s) {
			uint64_t h = 0xcbf29ce484222325ULL;
			for (; *s; ++s) {
				h = (h ^ static_cast<unsigned char>(*s)) * 0x100000001b3ULL;
			}
			return h;
		}

		uint64_t case_seed(uint64_t seed, char const *prop, uint64_t ix) {
			return mix(mix(seed, str_hash(prop)), ix);
		}

		// returns true on success
		bool execute(Prop const &p, Ctx &ctx, std::string &msg) {
			try {
				p.fn(ctx);
				return true;
			} catch (Failure const &f) {
				msg = f.msg;
			} catch (std::exception const &e) {
				msg = std::string{"unexpected exception "} + typeid(e).name() + ": " + e.what();
			} catch (...) {
				msg = "unexpected exception of unknown type";
			}
			return false;
		}

		Ctx make_ctx(Shared *sh) {
			sh->rec_len = 0;
			Ctx c;
			c.rec = sh->rec;
			c.rec_len = &sh->rec_len;
			return c;
		}

		bool run_tape(Prop const &p, Shared *sh, uint64_t const *in, size_t n, std::string &msg, bool tracing) {
			Ctx c = make_ctx(sh);
			c.replay = true;
			c.in = in;
			c.in_len = n;
			c.tracing = tracing;
			return execute(p, c, msg);
		}

		// Executes the tape with leak check (if enabled).
		// A leak must show in every one of several executions of the same tape.
		bool leaks(Prop const &p, Shared *scratch, uint64_t const *in, size_t n) {
			for (int i = 0; i < 3; ++i) {
				std::string msg;
				msg.reserve(256);
				size_t const before = allocated_bytes();
				bool const ok = run_tape(p, scratch, in, n, msg, false);
				if (!ok) {
					return false;
				}
				size_t const after = allocated_bytes();
				if (after <= before) {
					return false;
				}
			}
			return true;
		}

		bool run_full(Prop const &p, Shared *sh, uint64_t const *in, size_t n, std::string &msg, bool tracing) {
			bool ok = run_tape(p, sh, in, n, msg, tracing);
			if (ok && p.leak_check && allocated_bytes() != 0) {
				std::vector<uint64_t> tape(sh->rec, sh->rec + sh->rec_len);
				size_t const len = sh->rec_len;
				Shared *scratch = make_shared_mem();
				if (leaks(p, scratch, tape.data(), tape.size())) {
					msg = "memory allocated by the case is not released again (leak)";
					ok = false;
				}
				munmap(scratch, sizeof(Shared));
				sh->rec_len = len;
			}
			return ok;
		}

		std::vector<uint64_t> read_tape(char const *path) {
			std::vector<uint64_t> t;
			FILE *f = fopen(path, "r");
			if (!f) {
				perror(path);
				_exit(3);
			}
			unsigned long long v;
			while (fscanf(f, "%llu", &v) == 1) {
				t.push_back(v);
			}
			fclose(f);
			return t;
		}

		void write_tape(char const *path, std::vector<uint64_t> const &t) {
			FILE *f = fopen(path, "w");
			if (!f) {
				perror(path);
				_exit(3);
			}
			for (auto v : t) {
				fprintf(f, "%llu\n", static_cast<unsigned long long>(v));
			}
			fclose(f);
		}

		void hush() {
			int const fd = open("/dev/null", O_WRONLY);
			dup2(fd, 1);
			dup2(fd, 2);
			close(fd);
		}

		enum struct Outcome { Pass, Fail, Crash, Hang, Killed };

		// Runs the tape in a child process. On return sh holds the record of what was drawn.
		Outcome fork_tape(Prop const &p, Shared *sh, std::vector<uint64_t> const &tape, int hang_s, bool quiet) {
			sh->failed = 0;
			sh->rec_len = 0;
			sh->msg[0] = 0;
			fflush(stdout);
			fflush(stderr);
			pid_t const pid = fork();
			if (pid < 0) {
				perror("fork");
				_exit(3);
			}
			if (pid == 0) {
				setpgid(0, 0);
				if (quiet) {
					hush();
				}
				std::string msg;
				bool const ok = run_full(p, sh, tape.data(), tape.size(), msg, false);
				if (!ok) {
					snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
				}
				_exit(ok ? 0 : 10);
			}
			timespec ts{0, 300000};
			timespec start{};
			clock_gettime(CLOCK_MONOTONIC, &start);
			int status = 0;
			while (true) {
				pid_t const r = waitpid(pid, &status, WNOHANG);
				if (r == pid) {
					break;
				}
				timespec now{};
				clock_gettime(CLOCK_MONOTONIC, &now);
				if (now.tv_sec - start.tv_sec > hang_s) {
					kill(-pid, SIGKILL);
					kill(pid, SIGKILL);
					waitpid(pid, &status, 0);
					return Outcome::Hang;
				}
				nanosleep(&ts, nullptr);
				if (ts.tv_nsec < 5000000) {
					ts.tv_nsec += ts.tv_nsec / 4;
				}
			}
			kill(-pid, SIGKILL);
			if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
				return Outcome::Pass;
			}
			if (WIFEXITED(status) && WEXITSTATUS(status) == 10) {
				return Outcome::Fail;
			}
			if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
				return Outcome::Killed;
			}
			return Outcome::Crash;
		}

		struct Shrinker {
			Prop const &p;
			Shared *sh;
			Outcome kind;
			int hang_s;
			long budget;
			std::vector<uint64_t> best;
			long execs = 0;

			bool attempt(std::vector<uint64_t> const &cand) {
				if (execs >= budget) {
					return false;
				}
				++execs;
				Outcome const o = fork_tape(p, sh, cand, hang_s, true);
				bool const bad = kind == Outcome::Hang ? o == Outcome::Hang : (o == Outcome::Fail || o == Outcome::Crash);
				if (!bad) {
					return false;
				}
				std::vector<uint64_t> rec(sh->rec, sh->rec + sh->rec_len);
				auto smaller = [&](auto const &a, auto const &b) {
					if (a.size() != b.size()) {
						return a.size() < b.size();
					}
					return a < b;
				};
				while (!rec.empty() && rec.back() == 0) {
					rec.pop_back();
				}
				auto const &use = rec.size() <= cand.size() ? rec : cand;
				if (smaller(use, best)) {
					best = use;
					return true;
				}
				return false;
			}

			void run() {
				bool progress = true;
				while (progress && execs < budget) {
					progress = false;
					// delete chunks
					for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && execs < budget; len = len == 1 ? 0 : len / 2) {
						for (size_t i = 0; i + len <= best.size() && execs < budget;) {
							auto cand = best;
							cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + len));
							if (attempt(cand)) {
								progress = true;
							} else {
								i += std::max<size_t>(1, len / 2);
							}
						}
						if (len == 1) {
							break;
						}
					}
					// zero / minimise values
					for (size_t i = 0; i < best.size() && execs < budget; ++i) {
						if (best[i] == 0) {
							continue;
						}
						auto cand = best;
						cand[i] = 0;
						if (attempt(cand)) {
							progress = true;
							continue;
						}
						uint64_t lo = 0;
						while (i < best.size() && best[i] - lo > 1 && execs < budget) {
							uint64_t const mid = lo + (best[i] - lo) / 2;
							cand = best;
							cand[i] = mid;
							if (attempt(cand)) {
								progress = true;
							} else {
								lo = mid;
							}
						}
					}
				}
			}
		};

		struct Args {
			std::map<std::string, std::string> kv;
			std::string get(char const *k, char const *def = "") const {
				auto it = kv.find(k);
				return it == kv.end() ? def : it->second;
			}
			uint64_t num(char const *k, uint64_t def) const {
				auto it = kv.find(k);
				return it == kv.end() ? def : strtoull(it->second.c_str(), nullptr, 10);
			}
			bool has(char const *k) const { return kv.contains(k); }
		};

		Prop const &find_prop(std::string const &name) {
			for (auto const &p : props()) {
				if (name == p.name) {
					return p;
				}
			}
			fprintf(stderr, "no such property: %s\n", name.c_str());
			_exit(3);
		}

		struct Progress {
			uint64_t volatile prop;
			uint64_t volatile index;
			uint64_t volatile done;
			char volatile msg[2048];
		};

		int mode_run(Args const &a) {
			uint64_t const seed = a.num("seed", 1);
			uint64_t const shard = a.num("shard", 0);
			uint64_t const of = a.num("of", 1);
			bool const thorough = a.get("tier", "quick") == "thorough";
			double const scale = a.has("scale") ? strtod(a.get("scale").c_str(), nullptr) : 1.0;
			std::string const only = a.get("only");
			uint64_t const only_upto = a.num("upto", UINT64_MAX);

			int const pfd = open(a.get("progress").c_str(), O_RDWR | O_CREAT, 0644);
			if (pfd < 0 || ftruncate(pfd, sizeof(Progress)) != 0) {
				perror("progress");
				return 3;
			}
			auto *prog = static_cast<Progress *>(mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, pfd, 0));
			FILE *hashes = fopen(a.get("hashes").c_str(), "wb");
			FILE *stats = fopen(a.get("stats").c_str(), "w");
			if (!hashes || !stats || prog == MAP_FAILED) {
				perror("output");
				return 3;
			}

			Shared *sh = make_shared_mem();
			Shared *scratch = make_shared_mem();
			fprintf(stats, "{");
			bool first = true;
			for (size_t pi = 0; pi < props().size(); ++pi) {
				Prop const &p = props()[pi];
				if (!only.empty() && only != p.name) {
					continue;
				}
				labels = LabelTab{};
				auto const total = static_cast<uint64_t>(static_cast<double>(thorough ? p.thorough : p.quick) * scale);
				uint64_t evals = 0;
				uint64_t nontrivial = 0;
				uint64_t tape_sum = 0;
				std::vector<uint64_t> sample_ix;
				timespec t0{};
				clock_gettime(CLOCK_MONOTONIC, &t0);
				for (uint64_t ix = shard; ix < total && ix <= only_upto; ix += of) {
					prog->prop = pi;
					prog->index = ix;
					prog->done = prog->done + 1;
					std::string msg;
					Ctx c = make_ctx(sh);
					c.rng.s = case_seed(seed, p.name, ix);
					size_t const before = p.leak_check ? allocated_bytes() : 0;
					bool ok = execute(p, c, msg);
					++evals;
					if (ok && p.leak_check && allocated_bytes() > before) {
						if (leaks(p, scratch, sh->rec, sh->rec_len)) {
							ok = false;
							msg = "memory allocated by the case is not released again (leak)";
						}
					}
					if (!ok) {
						snprintf(const_cast<char *>(prog->msg), sizeof(prog->msg), "%s", msg.c_str());
						return 10;
					}
					tape_sum += sh->rec_len;
					if (c.is_nontrivial) {
						++nontrivial;
						uint64_t const h = c.hash ^ str_hash(p.name);
						fwrite(&h, sizeof h, 1, hashes);
						if (sample_ix.size() < 3) {
							sample_ix.push_back(ix);
						}
					}
				}
				timespec t1{};
				clock_gettime(CLOCK_MONOTONIC, &t1);
				fprintf(stats, "%s\"%s\":{\"evaluations\":%llu,\"nontrivial\":%llu,\"draws\":%llu,\"s\":%.3f,\"samples\":[", first ? "" : ",", p.name,
						static_cast<unsigned long long>(evals), static_cast<unsigned long long>(nontrivial), static_cast<unsigned long long>(tape_sum),
						static_cast<double>(t1.tv_sec - t0.tv_sec) + static_cast<double>(t1.tv_nsec - t0.tv_nsec) * 1e-9);
				for (size_t i = 0; i < sample_ix.size(); ++i) {
					fprintf(stats, "%s%llu", i ? "," : "", static_cast<unsigned long long>(sample_ix[i]));
				}
				fprintf(stats, "],\"labels\":{");
				for (size_t i = 0; i < max_labels && labels.names[i]; ++i) {
					fprintf(stats, "%s\"%s\":%llu", i ? "," : "", labels.names[i], static_cast<unsigned long long>(labels.counts[i]));
				}
				fprintf(stats, "}}");
				first = false;
			}
			fprintf(stats, "}");
			fclose(stats);
			fclose(hashes);
			return 0;
		}

		int mode_one(Args const &a) {
			Prop const &p = find_prop(a.get("prop"));
			Shared *sh = make_shared_mem();
			std::string msg;
			bool ok;
			if (a.has("tape")) {
				auto const t = read_tape(a.get("tape").c_str());
				ok = run_full(p, sh, t.data(), t.size(), msg, a.has("trace"));
			} else {
				Ctx c = make_ctx(sh);
				c.rng.s = case_seed(a.num("seed", 1), p.name, a.num("index", 0));
				c.tracing = a.has("trace");
				ok = execute(p, c, msg);
				if (ok && p.leak_check && allocated_bytes() != 0) {
					Shared *scratch = make_shared_mem();
					if (leaks(p, scratch, sh->rec, sh->rec_len)) {
						ok = false;
						msg = "memory allocated by the case is not released again (leak)";
					}
				}
			}
			if (!ok) {
				fprintf(stdout, "FAILURE: %s\n", msg.c_str());
				fflush(stdout);
				return 10;
			}
			return 0;
		}

		// records the tape of a generated case, even if it crashes
		int mode_tape(Args const &a) {
			Prop const &p = find_prop(a.get("prop"));
			Shared *sh = make_shared_mem();
			pid_t const pid = fork();
			if (pid == 0) {
				setpgid(0, 0);
				hush();
				Ctx c = make_ctx(sh);
				c.rng.s = case_seed(a.num("seed", 1), p.name, a.num("index", 0));
				std::string msg;
				_exit(execute(p, c, msg) ? 0 : 10);
			}
			int status = 0;
			uint64_t const limit = a.num("hang", 60);
			for (uint64_t i = 0; i < limit * 100; ++i) {
				if (waitpid(pid, &status, WNOHANG) == pid) {
					break;
				}
				usleep(10000);
			}
			kill(-pid, SIGKILL);
			std::vector<uint64_t> const t(sh->rec, sh->rec + sh->rec_len);
			write_tape(a.get("out").c_str(), t);
			return 0;
		}

		int mode_shrink(Args const &a) {
			Prop const &p = find_prop(a.get("prop"));
			auto tape = read_tape(a.get("tape").c_str());
			Shared *sh = make_shared_mem();
			int const hang_s = static_cast<int>(a.num("hang", 20));
			Outcome const o = fork_tape(p, sh, tape, hang_s, true);
			if (o == Outcome::Pass || o == Outcome::Killed) {
				fprintf(stderr, "tape does not fail\n");
				return 4;
			}
			Shrinker s{p, sh, o, o == Outcome::Hang ? 4 : 10, static_cast<long>(o == Outcome::Hang ? a.num("budget", 1500) / 30 : a.num("budget", 1500)), tape};
			s.run();
			write_tape(a.get("out").c_str(), s.best);
			printf("shrunk %zu -> %zu draws in %ld executions\n", tape.size(), s.best.size(), s.execs);
			return 0;
		}

		int main_impl(int argc, char **argv) {
			std::sort(props().begin(), props().end(), [](auto const &x, auto const &y) { return strcmp(x.name, y.name) < 0; });
			Args a;
			std::string const mode = argc > 1 ? argv[1] : "";
			for (int i = 2; i < argc; ++i) {
				std::string s = argv[i];
				if (s.starts_with("--")) {
					s = s.substr(2);
				}
				auto const eq = s.find('=');
				if (eq == std::string::npos) {
					a.kv[s] = "1";
				} else {
					a.kv[s.substr(0, eq)] = s.substr(eq + 1);
				}
			}
			signal(SIGPIPE, SIG_IGN);
			if (mode == "run") {
				return mode_run(a);
			}
			if (mode == "one") {
				return mode_one(a);
			}
			if (mode == "tape") {
				return mode_tape(a);
			}
			if (mode == "shrink") {
				return mode_shrink(a);
			}
			if (mode == "list") {
				for (auto const &p : props()) {
					printf("%s %llu %llu\n", p.name, static_cast<unsigned long long>(p.quick), static_cast<unsigned long long>(p.thorough));
				}
				return 0;
			}
			fprintf(stderr, "usage: %s run|one|tape|shrink|list ...\n", argv[0]);
			return 3;
		}
	} // namespace

	Reg::Reg(char const *name, PropFn fn, uint64_t quick, uint64_t thorough, bool leak_check) {
		props().push_back(Prop{name, fn, quick, thorough, leak_check});
	}

	void Ctx::label(char const *name) noexcept {
		for (size_t i = 0; i < max_labels; ++i) {
			if (labels.names[i] == nullptr) {
				labels.names[i] = name;
			}
			if (labels.names[i] == name || strcmp(labels.names[i], name) == 0) {
				++labels.counts[i];
				return;
			}
		}
	}

	void Ctx::log(std::string_view s) noexcept {
		// straight to the descriptor: must survive a crash right after it
		std::string line{s};
		line += '\n';
		[[maybe_unused]] auto r = write(1, line.data(), line.size());
	}

	void die(char const *msg) noexcept {
		fprintf(stderr, "FATAL: %s\n", msg);
		fflush(stderr);
		abort();
	}

	bool is_fuzzing() noexcept { return fuzzing; }

	Str::Str() = default;
	Str::~Str() = default;
	Str &Str::operator<<(char const *x) {
		s += x;
		return *this;
	}
	Str &Str::operator<<(std::string_view x) {
		s += x;
		return *this;
	}
	Str &Str::operator<<(bool x) {
		s += x ? "true" : "false";
		return *this;
	}
	Str &Str::operator<<(char x) {
		s += x;
		return *this;
	}
	Str &Str::operator<<(double x) {
		char b[64];
		snprintf(b, sizeof b, "%.17g", x);
		s += b;
		return *this;
	}
	Str &Str::put_i(long long x) {
		s += std::to_string(x);
		return *this;
	}
	Str &Str::put_u(unsigned long long x) {
		s += std::to_string(x);
		return *this;
	}
	void Str::fail(char const *where) { throw Failure{where + s}; }
	void Str::log(Ctx &ctx) { ctx.log(s); }
	void fail_at(char const *where) { throw Failure{where}; }

#ifdef PBT_LIBFUZZER
	// coverage guided exploration of the same properties: the bytes of the input are the tape
	static int fuzz_one(uint8_t const *data, size_t size) {
		static Shared *sh = make_shared_mem();
		static std::vector<uint64_t> tape;
		static bool once = [] {
			fuzzing = true;
			std::sort(props().begin(), props().end(), [](auto const &x, auto const &y) { return strcmp(x.name, y.name) < 0; });
			return true;
		}();
		(void) once;
		static char const *only = getenv("PBT_ONLY");
		if (size < 1) {
			return 0;
		}
		tape.clear();
		size_t const pi = data[0] % props().size();
		Prop const &p = only ? find_prop(only) : props()[pi];
		for (size_t i = 1; i < size;) {
			// 0..247: the byte itself; 248 + k: the next k + 1 bytes little endian
			uint8_t const b = data[i++];
			if (b < 248) {
				tape.push_back(b);
			} else {
				uint64_t v = 0;
				for (unsigned k = 0; k <= static_cast<unsigned>(b - 248) && i < size; ++k) {
					v |= static_cast<uint64_t>(data[i++]) << (8 * k);
				}
				tape.push_back(v);
			}
		}
		std::string msg;
		if (!run_tape(p, sh, tape.data(), tape.size(), msg, false)) {
			fprintf(stderr, "FAILURE: property %s: %s\n", p.name, msg.c_str());
			abort();
		}
		return 0;
	}
#endif
} // namespace pbt

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(uint8_t const *data, size_t size) { return pbt::fuzz_one(data, size); }
#else
int main(int argc, char **argv) { return pbt::main_impl(argc, argv); }
#endif
