/* Declarations only; used when the unpacked externals are not present. */
#ifndef KMCSTAT_MD5_STUB
#define KMCSTAT_MD5_STUB
typedef unsigned int MD5_u32plus;
typedef struct { MD5_u32plus lo, hi; MD5_u32plus a, b, c, d; unsigned char buffer[64]; MD5_u32plus block[16]; } MD5_CTX;
extern "C" {
void MD5_Init(MD5_CTX *ctx);
void MD5_Update(MD5_CTX *ctx, void *data, unsigned long size);
void MD5_Final(unsigned char *result, MD5_CTX *ctx);
}
#endif
