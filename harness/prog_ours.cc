// experiments/ours.cc, its main under another name
#undef NDEBUG
int main(int, char**) __asm__("ours_program");
#include REPO_OURS
