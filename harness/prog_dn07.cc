// experiments/dn07.cc, its main under another name
#undef NDEBUG
int main(int, char**) __asm__("dn07_program");
#include REPO_DN07
