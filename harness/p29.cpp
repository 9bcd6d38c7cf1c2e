// P29: the continuous-thrust low-thrust leg (see hfleg.hpp).
#include "hfleg.hpp"

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool T = run.thorough();
    hf::physics(run, T, hf::EVERYTHING, T ? 1 : 3);
    hf::motion(run);
    hf::histories(run, T ? 5 : 2, T ? 4 : 3);
    hf::counts(run, T);
    hf::rejections(run, T);
    hf::construction(run);
    hf::archives(run);
    return run.go();
}
