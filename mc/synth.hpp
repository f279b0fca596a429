// Codec tables made up by the explorers: compiled by the tree's own bsdconv-mktable and installed in a private
// BSDCONV_PATH of each worker process, next to the real codecs.
#pragma once
#include "ref.hpp"
#include <spawn.h>
#include <dirent.h>
#include <sys/stat.h>
#include <fcntl.h>
extern char **environ;
static S g_prefix, g_dir; // g_dir: this worker's BSDCONV_PATH
static void linkall(const S &from, const S &to) { DIR *d = opendir(from.c_str()); if (!d) return; while (auto *e = readdir(d)) if (e->d_name[0] != '.') symlink((from + "/" + e->d_name).c_str(), (to + "/" + e->d_name).c_str()); closedir(d); }
static void setdir() {
	if (g_prefix.empty()) g_prefix = getenv("BSDCONV_PATH");
	static pid_t mine = 0; if (mine == getpid()) return; mine = getpid();
	g_dir = g_tmp + fmt("/w%d", (int)getpid()); mkdir(g_dir.c_str(), 0755);
	mkdir((g_dir + "/share").c_str(), 0755); S b = g_dir + "/share/bsdconv"; mkdir(b.c_str(), 0755);
	for (const char *t : {"from", "inter", "to", "filter", "scorer"}) { mkdir((b + "/" + t).c_str(), 0755); linkall(g_prefix + "/share/bsdconv/" + t, b + "/" + t); }
	setenv("BSDCONV_PATH", g_dir.c_str(), 1);
}
static S slurp(const S &p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
// compile; returns "" or what went wrong
static S compile(const S &text, const S &out, S *bytes = nullptr) {
	S src = g_dir + "/t.txt"; { FILE *f = fopen(src.c_str(), "w"); fwrite(text.data(), 1, text.size(), f); fclose(f); }
	unlink(out.c_str());
	S exe = g_prefix + "/bin/bsdconv-mktable"; char *av[] = {(char *)exe.c_str(), (char *)src.c_str(), (char *)out.c_str(), NULL};
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
	pid_t p; int r = posix_spawn(&p, exe.c_str(), &fa, NULL, av, environ); posix_spawn_file_actions_destroy(&fa);
	if (r) return "cannot run bsdconv-mktable"; int st; waitpid(p, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) return "bsdconv-mktable " + status_text(st, false);
	if (bytes) *bytes = slurp(out);
	return "";
}
