// Scenarios over random trees.
#include "dyn.hpp"
using namespace d;
static std::vector<std::string> const leaves = {"just", "leaf", "leaf", "leaf", "jerr", "jstop", "jexc", "until", "sched", "just3", "just0", "jfrom", "jefrom"};

VS_SCENARIO(basic)
{
  run_tree({.inner = {"then", "ue", "us", "iv", "sopt", "serr", "mat", "it", "vsd", "thenv"}, .leaves = leaves, .depth = 3, .reps = 2});
}
VS_SCENARIO(let)
{
  run_tree({.inner = {"lv", "lv", "le", "ls", "lets", "then"}, .leaves = {"just", "leaf", "ref", "ref", "jerr", "jexc", "jstop", "tcon"}, .depth = 3, .reps = 2});
}
VS_SCENARIO(whenall)
{
  run_tree({.inner = {"wa2", "wa3", "wav", "then", "twa"}, .leaves = leaves, .root = {"wa2", "wa3", "wav", "twa"}, .stop = 2});
}
VS_SCENARIO(whenany)
{
  run_tree({.inner = {"any2", "any3", "then"}, .leaves = leaves, .root = {"any2", "any3"}, .stop = 2});
}
VS_SCENARIO(ctx)
{
  run_tree({.inner = {"co", "so", "on", "on3", "coN", "then"}, .leaves = {"just", "leaf", "jerr", "jstop", "sched", "rsched", "tcon"}, .depth = 3, .reps = 2});
}
VS_SCENARIO(env)
{
  run_tree({.inner = {"we", "we", "un", "sw", "usr", "then", "wa2", "so"}, .leaves = {"rtag", "rsched", "leaf", "until", "just"}, .depth = 4, .stop = 2});
}
VS_SCENARIO(seq)
{
  run_tree({.inner = {"seq2", "seq3", "rn", "ru", "reu", "then"}, .leaves = leaves, .depth = 3});
}
VS_SCENARIO(fin)
{
  run_tree({.inner = {"fin", "then", "fin"}, .leaves = {"just", "leaf", "leaf", "leaf", "jerr", "jstop", "jexc", "until", "sched", "just0", "tcon"}, .depth = 3});
}
VS_SCENARIO(bulk)
{
  run_tree({.inner = {"bulk", "bulkc", "bulku", "fj", "then", "lv"}, .leaves = {"just", "leaf", "leaf", "leaf", "cache", "cache", "cache", "jerr", "jstop", "jexc", "just3", "until", "tcon"},
            .root = {"bulk", "bulkc", "bulku", "fj", "fj", "lv"}, .depth = 3, .max_nodes = 14, .reps = 2});
}
VS_SCENARIO(erase)
{
  run_tree({.inner = {"anys", "anys", "anyr", "anyr", "fun", "fun", "then", "we", "wa2", "sw", "lv"}, .leaves = {"just", "leaf", "leaf", "until", "until", "rtag", "rsched", "asched", "asched", "jerr", "jexc", "jstop", "just3", "tcon"},
            .root = {"anys", "anyr", "fun", "lv"}, .depth = 4, .stop = 2, .reps = 2});
}
VS_SCENARIO(task)
{
  run_tree({.inner = {"stask", "stask2", "stt", "stt2", "etask", "etask2", "etask2", "then", "lv", "wa2", "sw", "so", "we"},
            .leaves = {"leaf", "leaf", "leaf", "until", "just", "just", "just", "jerr", "jexc", "jstop", "tcon", "rtag", "rsched", "sched"},
            .root = {"stask", "stask2", "stt", "stt2", "etask", "etask2", "etask2", "wa2"}, .depth = 3, .stop = 2, .reps = 2});
}
VS_SCENARIO(await)
{
  run_tree({.inner = {"awt", "awt2", "stask", "etask", "then", "lv", "wa2", "sw", "rn", "we"},
            .leaves = {"awl", "awl", "awl", "leaf", "until", "tcon", "just", "jerr", "rtag"},
            .root = {"awt", "awt2", "wa2", "then", "rn", "awt2"}, .depth = 3, .stop = 2, .reps = 2});
}
// everything together
VS_SCENARIO(mixed)
{
  run_tree({.inner = {"then", "ue", "us", "iv", "sopt", "serr", "mat", "it", "vsd", "lv", "le", "ls", "wa2", "wa3", "any2", "co", "so", "on", "we", "un", "sw", "usr", "seq2", "rn", "fin"},
            .leaves = {"just", "leaf", "leaf", "leaf", "ref", "ref", "jerr", "jstop", "jexc", "until", "sched", "tcon", "rtag"},
            .depth = 4, .max_nodes = 14, .stop = 2, .reps = 2});
}
