#ifdef VP_CBMC
int main(void)
{
    IN = nondet_in_t();
    vp_harness();
    __CPROVER_assert(0, "VPWITNESS");
    return 0;
}
#else
int vp_search; jmp_buf vp_jb;
static void vp_load(void)
{
# ifdef VP_REPLAY
#  include VP_REPLAY
# endif
}
/* replay: the counterexample itself; with an argument N (harnesses over an uninterpreted
 * cipher): the same case with N other choices of the data the uninterpreted function hid */
int main(int argc, char **argv)
{
    vp_load();
    if (argc > 1) {
# ifdef VP_HAS_RANDOMISE
        static struct in_t in0;
        volatile long n = atol(argv[1]);
        in0 = IN; vp_search = 1;
        while (n-- > 0) {
            IN = in0; vp_randomise();
            if (!setjmp(vp_jb)) vp_harness();
        }
# endif
        printf("VPOK\n");
        return 0;
    }
    vp_harness();
    printf("VPOK\n");
    return 0;
}
#endif
