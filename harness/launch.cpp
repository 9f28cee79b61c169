// Starts the main function of a command that was built as a shared object, in a process of its own.
#include "alloc.h"
#include "world.h"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <signal.h>
#include <iostream>
int main (int argc, char **argv)
{
    static std::ios_base::Init init;
    world::from_environment ();
    signal (SIGXFSZ, SIG_IGN);
    signal (SIGPIPE, SIG_IGN);
    void *h = dlopen (argv[1], RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf (stderr, "%s\n", dlerror ()); return 125; }
    auto f = (int (*) (int, char **)) dlsym (h, "main");
    if (!f) { fprintf (stderr, "%s\n", dlerror ()); return 125; }
    return f (argc - 2, argv + 2);
}
