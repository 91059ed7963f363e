// A single-process MPI library that only watches how it is used: initialisation, finalisation, the attached buffer,
// communicators; every call is a scheduling point.
#ifndef MPISTUB_HPP
#define MPISTUB_HPP
namespace mpistub
{
void user_init();               // as if the application had initialised MPI
extern int inits, finalizes;    // calls of the library
extern bool attached;
extern long live_objects;       // kept by the harness: library objects that exist
extern long types, comms;
}
#endif
