// Entry points of the block cache (compiled with the library's sources)
#include "cache/cachemanager.h"

extern "C" {

void* sc_new() { return new cache::CacheManager(); }
void sc_init(void* c, unsigned char* mem, unsigned long blocks, unsigned long blockSize, long spread)
{
	static_cast<cache::CacheManager*>(c)->init(mem, blocks, blockSize, spread);
}
long sc_get(void* c, unsigned long block, unsigned long* slot, unsigned char** data)
{
	return static_cast<cache::CacheManager*>(c)->get(block, *slot, *data);
}
bool sc_tryGet(void* c, unsigned long block, unsigned long* slot, const unsigned char** data)
{
	return static_cast<cache::CacheManager*>(c)->tryGet(block, *slot, *data);
}
void sc_unlock(void* c, unsigned long slot) { static_cast<cache::CacheManager*>(c)->unlock(slot); }
void sc_delete(void* c) { delete static_cast<cache::CacheManager*>(c); }

}
