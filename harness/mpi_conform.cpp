// Conformance of the MPI model: a parallel test program of the library, which passes over
// the real MPI library, run on every rank of the model.
#include "fakempi.hpp"
#include <cstdlib>
#include <vsip/initfin.hpp>
#include TESTFILE
// linked with --wrap=main: the start-up code calls __wrap_main, the test's main is __real_main
extern "C" int __real_main(int, char **);
extern "C" int __wrap_main(int argc, char **argv)
{
  fk::Model m;
  static vsip::vsipl *lib; m.init = [] { lib = new vsip::vsipl(); }; m.fini = [] { delete lib; lib = 0; };
  m.count = [] { return 1L; };
  m.describe = [](long) { return std::string(TESTFILE); };
  m.bound = [](long) { return -1; };
  m.body = [](long)
  {
    char name[] = "test"; char *av[] = {name, 0}; 
    int r = __real_main(1, av);
    if (r) fk::fail("test", "exit status %d", r);
  };
  return fk::main(argc, argv, m);
}
