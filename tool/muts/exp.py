U='include/ldaplusplus/utils.hpp'
def m(n,c,e,*ed): return (n,[c] if isinstance(c,str) else c,e,list(ed))
W='''    while (x >= 1) {
        x = x/2;
        cnt++;
    }
'''
S='''    while (cnt-- > 0) {
        x *= x;
    }
'''
L='    x = exp_lut[static_cast<int>(x*1024)];\n'
MUTS=[
 m('gt1','C19',1,(U,'while (x >= 1)','while (x > 1)')),
 m('nonan','C19',1,(U,'x > 100 || x != x','x > 100')),
 m('nolarge','C19',1,(U,'x > 100 || x != x','x != x')),
 m('third','C19',1,(U,'x = x/2;','x = x/3;')),
 m('scale','C19',1,(U,'x*1024','x*1000')),
 m('scale2','C19',1,(U,'x*1024','x*2048')),
 m('round','C19',1,(U,'static_cast<int>(x*1024)','static_cast<int>(x*1024+0.5)')),
 m('cnt1','C19',1,(U,'int cnt = 0;','int cnt = 1;')),
 m('cntge','C19',1,(U,'while (cnt-- > 0)','while (cnt-- >= 0)')),
 m('precnt','C19',1,(U,'while (cnt-- > 0)','while (--cnt > 0)')),
 m('cube','C19',1,(U,'x *= x;','x *= x*x;')),
 m('neg','C19',1,(U,'return 1/fast_exp(-x);','return -fast_exp(-x);')),
 m('neg2','C19',1,(U,'return 1/fast_exp(-x);','return fast_exp(-x);')),
 m('negle','C19',1,(U,'    if (x < 0)\n        return 1/fast','    if (x <= 0)\n        return 1/fast')),
 m('neg-small','C19',1,(U,'    if (x < 0)\n        return 1/fast','    if (x < -1)\n        return 1/fast')),
 m('expneg','C19',1,(U,'return std::exp(x);','return std::exp(-x);')),
 m('entry','C19',1,(U,'1.000977995032110268e+00','1.009077995032110268e+00')),
 m('entry2','C19',1,(U,'2.712972685952216967e+00','2.712974685952216967e+00')),
 m('R-clamp','C19',0,(U,L,'    x = exp_lut[std::min(1023, static_cast<int>(x*1024))];\n')),
 m('R-half','C19',0,(U,'x = x/2;','x *= 0.5;')),
 m('R-1023','C19',0,(U,'x*1024','x*1023')),
 m('R-isnan','C19',0,(U,'x > 100 || x != x','std::isnan(x) || x > 100')),
 m('R-le','C19',0,(U,'''    if (x > 100 || x != x)
        return std::exp(x);
''','''    if (!(x <= 100))
        return std::exp(x);
''')),
 m('R-for','C19',0,(U,S,'''    for (int i=0; i<cnt; i++) {
        x = x * x;
    }
''')),
 m('R-for2','C19',0,(U,W,'''    for (; x >= 1; cnt++) {
        x /= 2;
    }
''')),
 m('R-idx','C19',0,(U,L,'    const int index = static_cast<int>(x*1024);\n    x = exp_lut[index];\n')),
 m('R-size','C19',0,(U,L,'    x = exp_lut[static_cast<int>(x*exp_lut.size())];\n')),
 m('R-helper','C19',0,(U,L,'    x = exp_lookup(x);\n'),(U,'template<typename Scalar>\nstatic inline Scalar fast_exp','template<typename Scalar>\nstatic inline Scalar exp_lookup(Scalar x) {\n    return exp_lut[static_cast<int>(x*1024)];\n}\n\ntemplate<typename Scalar>\nstatic inline Scalar fast_exp')),
 m('R-neg','C19',0,(U,'        return 1/fast_exp(-x);','        return static_cast<Scalar>(1) / fast_exp(-x);')),
 m('R-var','C19',0,(U,L,'    Scalar result = exp_lut[static_cast<int>(x*1024)];\n'),(U,S,'    while (cnt-- > 0) {\n        result *= result;\n    }\n'),(U,'    }\n\n    return x;\n}','    }\n\n    return result;\n}')),
 m('R-std','C19',0,(U,W+'\n'+L+'\n'+S,'    x = std::exp(x);\n')),
 m('R-zero','C19',0,(U,'    if (x > 100','    if (x == 0)\n        return 1;\n\n    if (x > 100')),
 m('R-bool','C19',0,(U,'''    if (x > 100 || x != x)
        return std::exp(x);
''','''    const bool covered = x <= 100;
    if (!covered)
        return std::exp(x);
''')),
]
