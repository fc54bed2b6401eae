#include <filesystem>
static SymFs *g_symfs;
SymFs *symfs_get() { if (!g_symfs) g_symfs = new SymFs(); return g_symfs; }
// error categories (only identity matters)
