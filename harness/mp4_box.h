/* ISO-BMFF reading helpers, independent of the code under test */
static uint32_t be32(const u_char *p) { return (uint32_t) p[0] << 24 | (uint32_t) p[1] << 16 | (uint32_t) p[2] << 8 | p[3]; }
static uint64_t be64(const u_char *p) { return (uint64_t) be32(p) << 32 | be32(p + 4); }
static unsigned be16(const u_char *p) { return p[0] << 8 | p[1]; }
static int is_box(const u_char *p, const u_char *e, const char *name) { return e - p >= 8 && p[4] == (u_char) name[0] && p[5] == (u_char) name[1] && p[6] == (u_char) name[2] && p[7] == (u_char) name[3]; }
/* the next box has to be this one: *body and *bend are its contents; returns what follows */
static u_char *box(u_char *p, u_char *e, const char *name, u_char **body, u_char **bend)
{
    uint32_t n;
    VF_ASSERT(e - p >= 8, "room for a box"); VF_ASSERT(is_box(p, e, name), "box type");
    n = be32(p); VF_ASSERT(n >= 8 && n <= (size_t) (e - p), "box size");
    *body = p + 8; *bend = p + n; return p + n;
}
/* a box of a fixed content size */
static u_char *boxn(u_char *p, u_char *e, const char *name, int n, u_char **body)
{
    u_char *be; p = box(p, e, name, body, &be);
    VF_ASSERT(be - *body == n, "size of the box contents"); return p;
}
