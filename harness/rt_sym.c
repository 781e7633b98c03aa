/* C library functions the engine executes symbolically (never inlined into natives). */
typedef unsigned long size_t; typedef int wchar_t;
int memcmp(const void* a, const void* b, size_t n){ const unsigned char*p=a,*q=b; for(size_t i=0;i<n;i++) if(p[i]!=q[i]) return p[i]<q[i]?-1:1; return 0; }
int bcmp(const void* a, const void* b, size_t n){ return memcmp(a,b,n); }
size_t strlen(const char* s){ size_t n=0; while(s[n]) n++; return n; }
void* memchr(const void* s, int c, size_t n){ const unsigned char*p=s; for(size_t i=0;i<n;i++) if(p[i]==(unsigned char)c) return (void*)(p+i); return 0; }
size_t wcslen(const wchar_t* s){ size_t n=0; while(s[n]) n++; return n; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n){ for(size_t i=0;i<n;i++) d[i]=s[i]; return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n){ if(d<s) for(size_t i=0;i<n;i++) d[i]=s[i]; else for(size_t i=n;i-->0;) d[i]=s[i]; return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n){ for(size_t i=0;i<n;i++) d[i]=c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n){ for(size_t i=0;i<n;i++) if(a[i]!=b[i]) return a[i]<b[i]?-1:1; return 0; }
wchar_t* wmemchr(const wchar_t* s, wchar_t c, size_t n){ for(size_t i=0;i<n;i++) if(s[i]==c) return (wchar_t*)(s+i); return 0; }
int strcmp(const char* a, const char* b){ const unsigned char*p=(const unsigned char*)a,*q=(const unsigned char*)b; while(*p&&*p==*q){++p;++q;} return *p==*q?0:*p<*q?-1:1; }
