/* Puts the reservation of address space that asks for an address somewhere
   else, so that a restarted image has to be relocated.  */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stddef.h>

void *
mmap (void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
  if (addr && fd < 0 && !(flags & MAP_FIXED) && len > (64UL << 20))
    addr = NULL;
  if (!addr && fd < 0 && len > (64UL << 20) && !(flags & MAP_FIXED))
    addr = (void *) 0x510000000000UL;
  return (void *) syscall (SYS_mmap, addr, len, prot, flags, fd, off);
}

void *
mmap64 (void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
  return mmap (addr, len, prot, flags, fd, off);
}
