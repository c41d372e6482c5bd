/* Stand-ins for the limits hook, for a tree that does not build with it. */
#include <stddef.h>
size_t urkel_verif_max_file_size = 0x7fffffff;
size_t urkel_verif_max_open_files = 32;
size_t urkel_verif_write_buffer = 64 << 20;
size_t urkel_verif_read_buffer = 1 << 20;
int urkel_verif_absent = 1;
