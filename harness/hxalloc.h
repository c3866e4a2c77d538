#pragma once
#include <stddef.h>
#include <string>
struct HxAllocStats{long blocks,bytes,allocs,frees,maps,mapBytes,execBytes;};
HxAllocStats hxStats();
void hxFailAfter(long n);void hxMmapFailAfter(long n);
void hxBad(const char*what,void*p);
std::string hxTakeBad();
size_t hxBlockSize(void*p);
std::string hxLive(int max=4);
int hxMaps(char**a,size_t*n,int max); // mappings made by the code under test
