// MerlinVersion.cpp is generated by cmake from git state; the harnesses do not need it.
#include <string>
std::string merlin_version() { return "verif"; }
int merlin_version_major() { return 0; }
int merlin_version_minor() { return 0; }
int merlin_version_patch() { return 0; }
std::string merlin_version_git() { return ""; }
std::string merlin_version_info() { return ""; }
