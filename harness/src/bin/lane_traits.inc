// generated by gen_bins.py: every compile-time swizzle, and a spread of compile-time permutes

pub fn swz(n: u32, v: XMVECTOR) -> XMVECTOR { match n {
  0 => <(SwizzleX,SwizzleX,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  64 => <(SwizzleX,SwizzleX,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  128 => <(SwizzleX,SwizzleX,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  192 => <(SwizzleX,SwizzleX,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  16 => <(SwizzleX,SwizzleX,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  80 => <(SwizzleX,SwizzleX,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  144 => <(SwizzleX,SwizzleX,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  208 => <(SwizzleX,SwizzleX,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  32 => <(SwizzleX,SwizzleX,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  96 => <(SwizzleX,SwizzleX,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  160 => <(SwizzleX,SwizzleX,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  224 => <(SwizzleX,SwizzleX,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  48 => <(SwizzleX,SwizzleX,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  112 => <(SwizzleX,SwizzleX,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  176 => <(SwizzleX,SwizzleX,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  240 => <(SwizzleX,SwizzleX,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  4 => <(SwizzleX,SwizzleY,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  68 => <(SwizzleX,SwizzleY,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  132 => <(SwizzleX,SwizzleY,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  196 => <(SwizzleX,SwizzleY,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  20 => <(SwizzleX,SwizzleY,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  84 => <(SwizzleX,SwizzleY,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  148 => <(SwizzleX,SwizzleY,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  212 => <(SwizzleX,SwizzleY,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  36 => <(SwizzleX,SwizzleY,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  100 => <(SwizzleX,SwizzleY,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  164 => <(SwizzleX,SwizzleY,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  228 => <(SwizzleX,SwizzleY,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  52 => <(SwizzleX,SwizzleY,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  116 => <(SwizzleX,SwizzleY,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  180 => <(SwizzleX,SwizzleY,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  244 => <(SwizzleX,SwizzleY,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  8 => <(SwizzleX,SwizzleZ,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  72 => <(SwizzleX,SwizzleZ,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  136 => <(SwizzleX,SwizzleZ,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  200 => <(SwizzleX,SwizzleZ,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  24 => <(SwizzleX,SwizzleZ,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  88 => <(SwizzleX,SwizzleZ,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  152 => <(SwizzleX,SwizzleZ,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  216 => <(SwizzleX,SwizzleZ,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  40 => <(SwizzleX,SwizzleZ,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  104 => <(SwizzleX,SwizzleZ,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  168 => <(SwizzleX,SwizzleZ,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  232 => <(SwizzleX,SwizzleZ,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  56 => <(SwizzleX,SwizzleZ,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  120 => <(SwizzleX,SwizzleZ,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  184 => <(SwizzleX,SwizzleZ,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  248 => <(SwizzleX,SwizzleZ,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  12 => <(SwizzleX,SwizzleW,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  76 => <(SwizzleX,SwizzleW,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  140 => <(SwizzleX,SwizzleW,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  204 => <(SwizzleX,SwizzleW,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  28 => <(SwizzleX,SwizzleW,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  92 => <(SwizzleX,SwizzleW,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  156 => <(SwizzleX,SwizzleW,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  220 => <(SwizzleX,SwizzleW,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  44 => <(SwizzleX,SwizzleW,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  108 => <(SwizzleX,SwizzleW,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  172 => <(SwizzleX,SwizzleW,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  236 => <(SwizzleX,SwizzleW,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  60 => <(SwizzleX,SwizzleW,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  124 => <(SwizzleX,SwizzleW,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  188 => <(SwizzleX,SwizzleW,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  252 => <(SwizzleX,SwizzleW,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  1 => <(SwizzleY,SwizzleX,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  65 => <(SwizzleY,SwizzleX,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  129 => <(SwizzleY,SwizzleX,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  193 => <(SwizzleY,SwizzleX,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  17 => <(SwizzleY,SwizzleX,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  81 => <(SwizzleY,SwizzleX,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  145 => <(SwizzleY,SwizzleX,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  209 => <(SwizzleY,SwizzleX,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  33 => <(SwizzleY,SwizzleX,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  97 => <(SwizzleY,SwizzleX,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  161 => <(SwizzleY,SwizzleX,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  225 => <(SwizzleY,SwizzleX,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  49 => <(SwizzleY,SwizzleX,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  113 => <(SwizzleY,SwizzleX,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  177 => <(SwizzleY,SwizzleX,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  241 => <(SwizzleY,SwizzleX,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  5 => <(SwizzleY,SwizzleY,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  69 => <(SwizzleY,SwizzleY,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  133 => <(SwizzleY,SwizzleY,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  197 => <(SwizzleY,SwizzleY,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  21 => <(SwizzleY,SwizzleY,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  85 => <(SwizzleY,SwizzleY,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  149 => <(SwizzleY,SwizzleY,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  213 => <(SwizzleY,SwizzleY,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  37 => <(SwizzleY,SwizzleY,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  101 => <(SwizzleY,SwizzleY,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  165 => <(SwizzleY,SwizzleY,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  229 => <(SwizzleY,SwizzleY,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  53 => <(SwizzleY,SwizzleY,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  117 => <(SwizzleY,SwizzleY,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  181 => <(SwizzleY,SwizzleY,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  245 => <(SwizzleY,SwizzleY,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  9 => <(SwizzleY,SwizzleZ,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  73 => <(SwizzleY,SwizzleZ,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  137 => <(SwizzleY,SwizzleZ,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  201 => <(SwizzleY,SwizzleZ,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  25 => <(SwizzleY,SwizzleZ,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  89 => <(SwizzleY,SwizzleZ,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  153 => <(SwizzleY,SwizzleZ,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  217 => <(SwizzleY,SwizzleZ,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  41 => <(SwizzleY,SwizzleZ,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  105 => <(SwizzleY,SwizzleZ,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  169 => <(SwizzleY,SwizzleZ,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  233 => <(SwizzleY,SwizzleZ,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  57 => <(SwizzleY,SwizzleZ,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  121 => <(SwizzleY,SwizzleZ,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  185 => <(SwizzleY,SwizzleZ,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  249 => <(SwizzleY,SwizzleZ,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  13 => <(SwizzleY,SwizzleW,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  77 => <(SwizzleY,SwizzleW,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  141 => <(SwizzleY,SwizzleW,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  205 => <(SwizzleY,SwizzleW,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  29 => <(SwizzleY,SwizzleW,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  93 => <(SwizzleY,SwizzleW,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  157 => <(SwizzleY,SwizzleW,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  221 => <(SwizzleY,SwizzleW,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  45 => <(SwizzleY,SwizzleW,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  109 => <(SwizzleY,SwizzleW,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  173 => <(SwizzleY,SwizzleW,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  237 => <(SwizzleY,SwizzleW,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  61 => <(SwizzleY,SwizzleW,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  125 => <(SwizzleY,SwizzleW,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  189 => <(SwizzleY,SwizzleW,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  253 => <(SwizzleY,SwizzleW,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  2 => <(SwizzleZ,SwizzleX,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  66 => <(SwizzleZ,SwizzleX,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  130 => <(SwizzleZ,SwizzleX,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  194 => <(SwizzleZ,SwizzleX,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  18 => <(SwizzleZ,SwizzleX,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  82 => <(SwizzleZ,SwizzleX,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  146 => <(SwizzleZ,SwizzleX,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  210 => <(SwizzleZ,SwizzleX,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  34 => <(SwizzleZ,SwizzleX,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  98 => <(SwizzleZ,SwizzleX,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  162 => <(SwizzleZ,SwizzleX,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  226 => <(SwizzleZ,SwizzleX,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  50 => <(SwizzleZ,SwizzleX,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  114 => <(SwizzleZ,SwizzleX,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  178 => <(SwizzleZ,SwizzleX,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  242 => <(SwizzleZ,SwizzleX,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  6 => <(SwizzleZ,SwizzleY,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  70 => <(SwizzleZ,SwizzleY,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  134 => <(SwizzleZ,SwizzleY,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  198 => <(SwizzleZ,SwizzleY,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  22 => <(SwizzleZ,SwizzleY,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  86 => <(SwizzleZ,SwizzleY,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  150 => <(SwizzleZ,SwizzleY,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  214 => <(SwizzleZ,SwizzleY,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  38 => <(SwizzleZ,SwizzleY,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  102 => <(SwizzleZ,SwizzleY,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  166 => <(SwizzleZ,SwizzleY,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  230 => <(SwizzleZ,SwizzleY,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  54 => <(SwizzleZ,SwizzleY,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  118 => <(SwizzleZ,SwizzleY,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  182 => <(SwizzleZ,SwizzleY,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  246 => <(SwizzleZ,SwizzleY,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  10 => <(SwizzleZ,SwizzleZ,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  74 => <(SwizzleZ,SwizzleZ,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  138 => <(SwizzleZ,SwizzleZ,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  202 => <(SwizzleZ,SwizzleZ,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  26 => <(SwizzleZ,SwizzleZ,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  90 => <(SwizzleZ,SwizzleZ,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  154 => <(SwizzleZ,SwizzleZ,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  218 => <(SwizzleZ,SwizzleZ,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  42 => <(SwizzleZ,SwizzleZ,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  106 => <(SwizzleZ,SwizzleZ,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  170 => <(SwizzleZ,SwizzleZ,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  234 => <(SwizzleZ,SwizzleZ,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  58 => <(SwizzleZ,SwizzleZ,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  122 => <(SwizzleZ,SwizzleZ,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  186 => <(SwizzleZ,SwizzleZ,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  250 => <(SwizzleZ,SwizzleZ,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  14 => <(SwizzleZ,SwizzleW,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  78 => <(SwizzleZ,SwizzleW,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  142 => <(SwizzleZ,SwizzleW,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  206 => <(SwizzleZ,SwizzleW,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  30 => <(SwizzleZ,SwizzleW,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  94 => <(SwizzleZ,SwizzleW,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  158 => <(SwizzleZ,SwizzleW,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  222 => <(SwizzleZ,SwizzleW,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  46 => <(SwizzleZ,SwizzleW,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  110 => <(SwizzleZ,SwizzleW,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  174 => <(SwizzleZ,SwizzleW,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  238 => <(SwizzleZ,SwizzleW,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  62 => <(SwizzleZ,SwizzleW,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  126 => <(SwizzleZ,SwizzleW,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  190 => <(SwizzleZ,SwizzleW,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  254 => <(SwizzleZ,SwizzleW,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  3 => <(SwizzleW,SwizzleX,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  67 => <(SwizzleW,SwizzleX,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  131 => <(SwizzleW,SwizzleX,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  195 => <(SwizzleW,SwizzleX,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  19 => <(SwizzleW,SwizzleX,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  83 => <(SwizzleW,SwizzleX,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  147 => <(SwizzleW,SwizzleX,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  211 => <(SwizzleW,SwizzleX,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  35 => <(SwizzleW,SwizzleX,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  99 => <(SwizzleW,SwizzleX,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  163 => <(SwizzleW,SwizzleX,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  227 => <(SwizzleW,SwizzleX,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  51 => <(SwizzleW,SwizzleX,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  115 => <(SwizzleW,SwizzleX,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  179 => <(SwizzleW,SwizzleX,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  243 => <(SwizzleW,SwizzleX,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  7 => <(SwizzleW,SwizzleY,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  71 => <(SwizzleW,SwizzleY,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  135 => <(SwizzleW,SwizzleY,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  199 => <(SwizzleW,SwizzleY,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  23 => <(SwizzleW,SwizzleY,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  87 => <(SwizzleW,SwizzleY,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  151 => <(SwizzleW,SwizzleY,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  215 => <(SwizzleW,SwizzleY,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  39 => <(SwizzleW,SwizzleY,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  103 => <(SwizzleW,SwizzleY,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  167 => <(SwizzleW,SwizzleY,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  231 => <(SwizzleW,SwizzleY,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  55 => <(SwizzleW,SwizzleY,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  119 => <(SwizzleW,SwizzleY,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  183 => <(SwizzleW,SwizzleY,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  247 => <(SwizzleW,SwizzleY,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  11 => <(SwizzleW,SwizzleZ,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  75 => <(SwizzleW,SwizzleZ,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  139 => <(SwizzleW,SwizzleZ,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  203 => <(SwizzleW,SwizzleZ,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  27 => <(SwizzleW,SwizzleZ,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  91 => <(SwizzleW,SwizzleZ,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  155 => <(SwizzleW,SwizzleZ,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  219 => <(SwizzleW,SwizzleZ,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  43 => <(SwizzleW,SwizzleZ,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  107 => <(SwizzleW,SwizzleZ,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  171 => <(SwizzleW,SwizzleZ,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  235 => <(SwizzleW,SwizzleZ,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  59 => <(SwizzleW,SwizzleZ,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  123 => <(SwizzleW,SwizzleZ,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  187 => <(SwizzleW,SwizzleZ,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  251 => <(SwizzleW,SwizzleZ,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  15 => <(SwizzleW,SwizzleW,SwizzleX,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  79 => <(SwizzleW,SwizzleW,SwizzleX,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  143 => <(SwizzleW,SwizzleW,SwizzleX,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  207 => <(SwizzleW,SwizzleW,SwizzleX,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  31 => <(SwizzleW,SwizzleW,SwizzleY,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  95 => <(SwizzleW,SwizzleW,SwizzleY,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  159 => <(SwizzleW,SwizzleW,SwizzleY,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  223 => <(SwizzleW,SwizzleW,SwizzleY,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  47 => <(SwizzleW,SwizzleW,SwizzleZ,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  111 => <(SwizzleW,SwizzleW,SwizzleZ,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  175 => <(SwizzleW,SwizzleW,SwizzleZ,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  239 => <(SwizzleW,SwizzleW,SwizzleZ,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  63 => <(SwizzleW,SwizzleW,SwizzleW,SwizzleX) as XMVectorSwizzle>::XMVectorSwizzle(v),
  127 => <(SwizzleW,SwizzleW,SwizzleW,SwizzleY) as XMVectorSwizzle>::XMVectorSwizzle(v),
  191 => <(SwizzleW,SwizzleW,SwizzleW,SwizzleZ) as XMVectorSwizzle>::XMVectorSwizzle(v),
  255 => <(SwizzleW,SwizzleW,SwizzleW,SwizzleW) as XMVectorSwizzle>::XMVectorSwizzle(v),
  _ => panic!("bad index") } }
pub fn prm(n: u32, a: XMVECTOR, b: XMVECTOR) -> Option<XMVECTOR> { Some(match n {
  512 => <(Permute0X,Permute0X,Permute0X,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3584 => <(Permute0X,Permute0X,Permute0X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  2624 => <(Permute0X,Permute0X,Permute0Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1664 => <(Permute0X,Permute0X,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2816 => <(Permute0X,Permute0X,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1856 => <(Permute0X,Permute0X,Permute1Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1544 => <(Permute0X,Permute0Y,Permute0X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2568 => <(Permute0X,Permute0Y,Permute0X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1608 => <(Permute0X,Permute0Y,Permute0Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2120 => <(Permute0X,Permute0Y,Permute0Y,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2632 => <(Permute0X,Permute0Y,Permute0Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  136 => <(Permute0X,Permute0Y,Permute0Z,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  648 => <(Permute0X,Permute0Y,Permute0Z,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1160 => <(Permute0X,Permute0Y,Permute0Z,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1672 => <(Permute0X,Permute0Y,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2184 => <(Permute0X,Permute0Y,Permute0Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2696 => <(Permute0X,Permute0Y,Permute0Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3208 => <(Permute0X,Permute0Y,Permute0Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3720 => <(Permute0X,Permute0Y,Permute0Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1736 => <(Permute0X,Permute0Y,Permute0W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2760 => <(Permute0X,Permute0Y,Permute0W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  264 => <(Permute0X,Permute0Y,Permute1X,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  776 => <(Permute0X,Permute0Y,Permute1X,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1288 => <(Permute0X,Permute0Y,Permute1X,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1800 => <(Permute0X,Permute0Y,Permute1X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2312 => <(Permute0X,Permute0Y,Permute1X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2824 => <(Permute0X,Permute0Y,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3336 => <(Permute0X,Permute0Y,Permute1X,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3848 => <(Permute0X,Permute0Y,Permute1X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1864 => <(Permute0X,Permute0Y,Permute1Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2888 => <(Permute0X,Permute0Y,Permute1Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1928 => <(Permute0X,Permute0Y,Permute1Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2952 => <(Permute0X,Permute0Y,Permute1Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1992 => <(Permute0X,Permute0Y,Permute1W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3016 => <(Permute0X,Permute0Y,Permute1W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  4040 => <(Permute0X,Permute0Y,Permute1W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1680 => <(Permute0X,Permute0Z,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1232 => <(Permute0X,Permute0Z,Permute0W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2832 => <(Permute0X,Permute0Z,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  976 => <(Permute0X,Permute0Z,Permute1W,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  536 => <(Permute0X,Permute0W,Permute0X,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3160 => <(Permute0X,Permute0W,Permute0Y,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1688 => <(Permute0X,Permute0W,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2200 => <(Permute0X,Permute0W,Permute0Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  280 => <(Permute0X,Permute0W,Permute1X,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  2840 => <(Permute0X,Permute0W,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3352 => <(Permute0X,Permute0W,Permute1X,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3032 => <(Permute0X,Permute0W,Permute1W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  32 => <(Permute0X,Permute1X,Permute0X,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  2080 => <(Permute0X,Permute1X,Permute0X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2144 => <(Permute0X,Permute1X,Permute0Y,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  1696 => <(Permute0X,Permute1X,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2720 => <(Permute0X,Permute1X,Permute0Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2336 => <(Permute0X,Permute1X,Permute1X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2848 => <(Permute0X,Permute1X,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1504 => <(Permute0X,Permute1X,Permute1W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3688 => <(Permute0X,Permute1Y,Permute0Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1704 => <(Permute0X,Permute1Y,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2856 => <(Permute0X,Permute1Y,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2920 => <(Permute0X,Permute1Y,Permute1Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  4008 => <(Permute0X,Permute1Y,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  560 => <(Permute0X,Permute1Z,Permute0X,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3632 => <(Permute0X,Permute1Z,Permute0X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  624 => <(Permute0X,Permute1Z,Permute0Y,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1712 => <(Permute0X,Permute1Z,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1840 => <(Permute0X,Permute1Z,Permute1X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2864 => <(Permute0X,Permute1Z,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1392 => <(Permute0X,Permute1Z,Permute1Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1456 => <(Permute0X,Permute1Z,Permute1Z,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  632 => <(Permute0X,Permute1W,Permute0Y,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1720 => <(Permute0X,Permute1W,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2872 => <(Permute0X,Permute1W,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  513 => <(Permute0Y,Permute0X,Permute0X,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1537 => <(Permute0Y,Permute0X,Permute0X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1665 => <(Permute0Y,Permute0X,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  321 => <(Permute0Y,Permute0X,Permute1Y,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1857 => <(Permute0Y,Permute0X,Permute1Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1985 => <(Permute0Y,Permute0X,Permute1W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1097 => <(Permute0Y,Permute0Y,Permute0Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2633 => <(Permute0Y,Permute0Y,Permute0Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1673 => <(Permute0Y,Permute0Y,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2185 => <(Permute0Y,Permute0Y,Permute0Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2825 => <(Permute0Y,Permute0Y,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3529 => <(Permute0Y,Permute0Y,Permute1W,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2449 => <(Permute0Y,Permute0Z,Permute1Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2649 => <(Permute0Y,Permute0W,Permute0Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3673 => <(Permute0Y,Permute0W,Permute0Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3353 => <(Permute0Y,Permute0W,Permute1X,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3929 => <(Permute0Y,Permute0W,Permute1Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  353 => <(Permute0Y,Permute1X,Permute1Y,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1441 => <(Permute0Y,Permute1X,Permute1Z,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1953 => <(Permute0Y,Permute1X,Permute1Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  105 => <(Permute0Y,Permute1Y,Permute0Y,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1129 => <(Permute0Y,Permute1Y,Permute0Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3945 => <(Permute0Y,Permute1Y,Permute1Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1961 => <(Permute0Y,Permute1Y,Permute1Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  4009 => <(Permute0Y,Permute1Y,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3561 => <(Permute0Y,Permute1Y,Permute1W,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1585 => <(Permute0Y,Permute1Z,Permute0X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1137 => <(Permute0Y,Permute1Z,Permute0Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2737 => <(Permute0Y,Permute1Z,Permute0Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  57 => <(Permute0Y,Permute1W,Permute0X,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1593 => <(Permute0Y,Permute1W,Permute0X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  185 => <(Permute0Y,Permute1W,Permute0Z,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1721 => <(Permute0Y,Permute1W,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3321 => <(Permute0Y,Permute1W,Permute0W,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  825 => <(Permute0Y,Permute1W,Permute1X,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2041 => <(Permute0Y,Permute1W,Permute1W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3065 => <(Permute0Y,Permute1W,Permute1W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2626 => <(Permute0Z,Permute0X,Permute0Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3650 => <(Permute0Z,Permute0X,Permute0Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1666 => <(Permute0Z,Permute0X,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1730 => <(Permute0Z,Permute0X,Permute0W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1282 => <(Permute0Z,Permute0X,Permute1X,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2818 => <(Permute0Z,Permute0X,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3330 => <(Permute0Z,Permute0X,Permute1X,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3906 => <(Permute0Z,Permute0X,Permute1Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3082 => <(Permute0Z,Permute0Y,Permute0X,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1674 => <(Permute0Z,Permute0Y,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3722 => <(Permute0Z,Permute0Y,Permute0Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  2826 => <(Permute0Z,Permute0Y,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3666 => <(Permute0Z,Permute0Z,Permute0Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3794 => <(Permute0Z,Permute0Z,Permute0W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1938 => <(Permute0Z,Permute0Z,Permute1Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1490 => <(Permute0Z,Permute0Z,Permute1W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  90 => <(Permute0Z,Permute0W,Permute0Y,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  3738 => <(Permute0Z,Permute0W,Permute0Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1434 => <(Permute0Z,Permute0W,Permute1Z,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1498 => <(Permute0Z,Permute0W,Permute1W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2010 => <(Permute0Z,Permute0W,Permute1W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3234 => <(Permute0Z,Permute1X,Permute0Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3746 => <(Permute0Z,Permute1X,Permute0Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3554 => <(Permute0Z,Permute1X,Permute1W,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3242 => <(Permute0Z,Permute1Y,Permute0Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1258 => <(Permute0Z,Permute1Y,Permute0W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2282 => <(Permute0Z,Permute1Y,Permute0W,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  3882 => <(Permute0Z,Permute1Y,Permute1X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1386 => <(Permute0Z,Permute1Y,Permute1Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  4010 => <(Permute0Z,Permute1Y,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  2354 => <(Permute0Z,Permute1Z,Permute1X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  3442 => <(Permute0Z,Permute1Z,Permute1Y,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1010 => <(Permute0Z,Permute1Z,Permute1W,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2106 => <(Permute0Z,Permute1W,Permute0X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  3130 => <(Permute0Z,Permute1W,Permute0X,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1658 => <(Permute0Z,Permute1W,Permute0Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3194 => <(Permute0Z,Permute1W,Permute0Y,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1722 => <(Permute0Z,Permute1W,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2810 => <(Permute0Z,Permute1W,Permute0W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1978 => <(Permute0Z,Permute1W,Permute1Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3715 => <(Permute0W,Permute0X,Permute0Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  707 => <(Permute0W,Permute0X,Permute0W,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1795 => <(Permute0W,Permute0X,Permute1X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3331 => <(Permute0W,Permute0X,Permute1X,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  835 => <(Permute0W,Permute0X,Permute1Y,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2435 => <(Permute0W,Permute0X,Permute1Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  3595 => <(Permute0W,Permute0Y,Permute0X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1675 => <(Permute0W,Permute0Y,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2699 => <(Permute0W,Permute0Y,Permute0Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1227 => <(Permute0W,Permute0Y,Permute0W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2827 => <(Permute0W,Permute0Y,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3467 => <(Permute0W,Permute0Y,Permute1Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2643 => <(Permute0W,Permute0Z,Permute0Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  723 => <(Permute0W,Permute0Z,Permute0W,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2771 => <(Permute0W,Permute0Z,Permute0W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  851 => <(Permute0W,Permute0Z,Permute1Y,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2075 => <(Permute0W,Permute0W,Permute0X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  1115 => <(Permute0W,Permute0W,Permute0Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1691 => <(Permute0W,Permute0W,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3227 => <(Permute0W,Permute0W,Permute0Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3739 => <(Permute0W,Permute0W,Permute0Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  731 => <(Permute0W,Permute0W,Permute0W,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3355 => <(Permute0W,Permute0W,Permute1X,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  611 => <(Permute0W,Permute1X,Permute0Y,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2659 => <(Permute0W,Permute1X,Permute0Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1251 => <(Permute0W,Permute1X,Permute0W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  355 => <(Permute0W,Permute1X,Permute1Y,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1379 => <(Permute0W,Permute1X,Permute1Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1891 => <(Permute0W,Permute1X,Permute1Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1579 => <(Permute0W,Permute1Y,Permute0X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  4011 => <(Permute0W,Permute1Y,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3827 => <(Permute0W,Permute1Z,Permute0W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3955 => <(Permute0W,Permute1Z,Permute1Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  4019 => <(Permute0W,Permute1Z,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  2619 => <(Permute0W,Permute1W,Permute0X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1723 => <(Permute0W,Permute1W,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3259 => <(Permute0W,Permute1W,Permute0Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3835 => <(Permute0W,Permute1W,Permute0W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3003 => <(Permute0W,Permute1W,Permute1Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2564 => <(Permute1X,Permute0X,Permute0X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  132 => <(Permute1X,Permute0X,Permute0Z,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  196 => <(Permute1X,Permute0X,Permute0W,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1732 => <(Permute1X,Permute0X,Permute0W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1348 => <(Permute1X,Permute0X,Permute1Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3972 => <(Permute1X,Permute0X,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1676 => <(Permute1X,Permute0Y,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2828 => <(Permute1X,Permute0Y,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  844 => <(Permute1X,Permute0Y,Permute1Y,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  908 => <(Permute1X,Permute0Y,Permute1Z,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3980 => <(Permute1X,Permute0Y,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1996 => <(Permute1X,Permute0Y,Permute1W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2772 => <(Permute1X,Permute0Z,Permute0W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  404 => <(Permute1X,Permute0Z,Permute1Z,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  916 => <(Permute1X,Permute0Z,Permute1Z,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3988 => <(Permute1X,Permute0Z,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  92 => <(Permute1X,Permute0W,Permute0Y,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  3164 => <(Permute1X,Permute0W,Permute0Y,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2780 => <(Permute1X,Permute0W,Permute0W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3420 => <(Permute1X,Permute0W,Permute1Y,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  924 => <(Permute1X,Permute0W,Permute1Z,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1948 => <(Permute1X,Permute0W,Permute1Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3996 => <(Permute1X,Permute0W,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  740 => <(Permute1X,Permute1X,Permute0W,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  804 => <(Permute1X,Permute1X,Permute1X,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2340 => <(Permute1X,Permute1X,Permute1X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  4004 => <(Permute1X,Permute1X,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1508 => <(Permute1X,Permute1X,Permute1W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1580 => <(Permute1X,Permute1Y,Permute0X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2092 => <(Permute1X,Permute1Y,Permute0X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  3628 => <(Permute1X,Permute1Y,Permute0X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3692 => <(Permute1X,Permute1Y,Permute0Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3756 => <(Permute1X,Permute1Y,Permute0Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3820 => <(Permute1X,Permute1Y,Permute0W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3884 => <(Permute1X,Permute1Y,Permute1X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3948 => <(Permute1X,Permute1Y,Permute1Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  428 => <(Permute1X,Permute1Y,Permute1Z,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  940 => <(Permute1X,Permute1Y,Permute1Z,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1452 => <(Permute1X,Permute1Y,Permute1Z,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1964 => <(Permute1X,Permute1Y,Permute1Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2476 => <(Permute1X,Permute1Y,Permute1Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2988 => <(Permute1X,Permute1Y,Permute1Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3500 => <(Permute1X,Permute1Y,Permute1Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  4012 => <(Permute1X,Permute1Y,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  4076 => <(Permute1X,Permute1Y,Permute1W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3700 => <(Permute1X,Permute1Z,Permute0Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  820 => <(Permute1X,Permute1Z,Permute1X,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2356 => <(Permute1X,Permute1Z,Permute1X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  3508 => <(Permute1X,Permute1Z,Permute1Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  4020 => <(Permute1X,Permute1Z,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  636 => <(Permute1X,Permute1W,Permute0Y,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1724 => <(Permute1X,Permute1W,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1276 => <(Permute1X,Permute1W,Permute0W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2876 => <(Permute1X,Permute1W,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3900 => <(Permute1X,Permute1W,Permute1X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  444 => <(Permute1X,Permute1W,Permute1Z,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  4028 => <(Permute1X,Permute1W,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1532 => <(Permute1X,Permute1W,Permute1W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3781 => <(Permute1Y,Permute0X,Permute0W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1989 => <(Permute1Y,Permute0X,Permute1W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  77 => <(Permute1Y,Permute0Y,Permute0Y,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1677 => <(Permute1Y,Permute0Y,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3213 => <(Permute1Y,Permute0Y,Permute0Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1741 => <(Permute1Y,Permute0Y,Permute0W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3789 => <(Permute1Y,Permute0Y,Permute0W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1293 => <(Permute1Y,Permute0Y,Permute1X,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2317 => <(Permute1Y,Permute0Y,Permute1X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2829 => <(Permute1Y,Permute0Y,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1357 => <(Permute1Y,Permute0Y,Permute1Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2957 => <(Permute1Y,Permute0Y,Permute1Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2197 => <(Permute1Y,Permute0Z,Permute0Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  29 => <(Permute1Y,Permute0W,Permute0X,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1565 => <(Permute1Y,Permute0W,Permute0X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1629 => <(Permute1Y,Permute0W,Permute0Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2205 => <(Permute1Y,Permute0W,Permute0Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2333 => <(Permute1Y,Permute0W,Permute1X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  3869 => <(Permute1Y,Permute0W,Permute1X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1437 => <(Permute1Y,Permute0W,Permute1Z,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1061 => <(Permute1Y,Permute1X,Permute0X,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1125 => <(Permute1Y,Permute1X,Permute0Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3941 => <(Permute1Y,Permute1X,Permute1Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  3493 => <(Permute1Y,Permute1X,Permute1Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  4069 => <(Permute1Y,Permute1X,Permute1W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1069 => <(Permute1Y,Permute1Y,Permute0X,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3757 => <(Permute1Y,Permute1Y,Permute0Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1261 => <(Permute1Y,Permute1Y,Permute0W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  4013 => <(Permute1Y,Permute1Y,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  2029 => <(Permute1Y,Permute1Y,Permute1W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1269 => <(Permute1Y,Permute1Z,Permute0W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1845 => <(Permute1Y,Permute1Z,Permute1X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3893 => <(Permute1Y,Permute1Z,Permute1X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  2997 => <(Permute1Y,Permute1Z,Permute1Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  573 => <(Permute1Y,Permute1W,Permute0X,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  125 => <(Permute1Y,Permute1W,Permute0Y,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1725 => <(Permute1Y,Permute1W,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2813 => <(Permute1Y,Permute1W,Permute0W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2054 => <(Permute1Z,Permute0X,Permute0X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  3590 => <(Permute1Z,Permute0X,Permute0X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1094 => <(Permute1Z,Permute0X,Permute0Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1670 => <(Permute1Z,Permute0X,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3718 => <(Permute1Z,Permute0X,Permute0Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1222 => <(Permute1Z,Permute0X,Permute0W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3782 => <(Permute1Z,Permute0X,Permute0W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1798 => <(Permute1Z,Permute0X,Permute1X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1862 => <(Permute1Z,Permute0X,Permute1Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  4038 => <(Permute1Z,Permute0X,Permute1W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  142 => <(Permute1Z,Permute0Y,Permute0Z,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1678 => <(Permute1Z,Permute0Y,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2830 => <(Permute1Z,Permute0Y,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2382 => <(Permute1Z,Permute0Y,Permute1Y,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  1998 => <(Permute1Z,Permute0Y,Permute1W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2582 => <(Permute1Z,Permute0Z,Permute0X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1174 => <(Permute1Z,Permute0Z,Permute0Z,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1686 => <(Permute1Z,Permute0Z,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2262 => <(Permute1Z,Permute0Z,Permute0W,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2774 => <(Permute1Z,Permute0Z,Permute0W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1366 => <(Permute1Z,Permute0Z,Permute1Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2966 => <(Permute1Z,Permute0Z,Permute1Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3030 => <(Permute1Z,Permute0Z,Permute1W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1054 => <(Permute1Z,Permute0W,Permute0X,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3678 => <(Permute1Z,Permute0W,Permute0Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  158 => <(Permute1Z,Permute0W,Permute0Z,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1182 => <(Permute1Z,Permute0W,Permute0Z,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1694 => <(Permute1Z,Permute0W,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2718 => <(Permute1Z,Permute0W,Permute0Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1950 => <(Permute1Z,Permute0W,Permute1Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1702 => <(Permute1Z,Permute1X,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1582 => <(Permute1Z,Permute1Y,Permute0X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3182 => <(Permute1Z,Permute1Y,Permute0Y,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3694 => <(Permute1Z,Permute1Y,Permute0Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1710 => <(Permute1Z,Permute1Y,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3886 => <(Permute1Z,Permute1Y,Permute1X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  4014 => <(Permute1Z,Permute1Y,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  494 => <(Permute1Z,Permute1Y,Permute1W,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1718 => <(Permute1Z,Permute1Z,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  886 => <(Permute1Z,Permute1Z,Permute1Y,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1598 => <(Permute1Z,Permute1W,Permute0X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1662 => <(Permute1Z,Permute1W,Permute0Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  190 => <(Permute1Z,Permute1W,Permute0Z,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  702 => <(Permute1Z,Permute1W,Permute0Z,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1214 => <(Permute1Z,Permute1W,Permute0Z,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1726 => <(Permute1Z,Permute1W,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2238 => <(Permute1Z,Permute1W,Permute0Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2750 => <(Permute1Z,Permute1W,Permute0Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3262 => <(Permute1Z,Permute1W,Permute0Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3774 => <(Permute1Z,Permute1W,Permute0Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1790 => <(Permute1Z,Permute1W,Permute0W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  1854 => <(Permute1Z,Permute1W,Permute1X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2366 => <(Permute1Z,Permute1W,Permute1X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  382 => <(Permute1Z,Permute1W,Permute1Y,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1918 => <(Permute1Z,Permute1W,Permute1Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2942 => <(Permute1Z,Permute1W,Permute1Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1982 => <(Permute1Z,Permute1W,Permute1Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3518 => <(Permute1Z,Permute1W,Permute1Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2046 => <(Permute1Z,Permute1W,Permute1W,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2567 => <(Permute1W,Permute0X,Permute0X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  583 => <(Permute1W,Permute0X,Permute0Y,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1607 => <(Permute1W,Permute0X,Permute0Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2439 => <(Permute1W,Permute0X,Permute1Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  1103 => <(Permute1W,Permute0Y,Permute0Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  3663 => <(Permute1W,Permute0Y,Permute0Y,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1679 => <(Permute1W,Permute0Y,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2831 => <(Permute1W,Permute0Y,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1359 => <(Permute1W,Permute0Y,Permute1Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2895 => <(Permute1W,Permute0Y,Permute1Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2071 => <(Permute1W,Permute0Z,Permute0X,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  3223 => <(Permute1W,Permute0Z,Permute0Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2839 => <(Permute1W,Permute0Z,Permute1X,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3863 => <(Permute1W,Permute0Z,Permute1X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1879 => <(Permute1W,Permute0Z,Permute1Y,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2391 => <(Permute1W,Permute0Z,Permute1Y,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  3031 => <(Permute1W,Permute0Z,Permute1W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1567 => <(Permute1W,Permute0W,Permute0X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  2719 => <(Permute1W,Permute0W,Permute0Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2783 => <(Permute1W,Permute0W,Permute0W,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3807 => <(Permute1W,Permute0W,Permute0W,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1823 => <(Permute1W,Permute0W,Permute1X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  103 => <(Permute1W,Permute1X,Permute0Y,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  2663 => <(Permute1W,Permute1X,Permute0Y,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2215 => <(Permute1W,Permute1X,Permute0Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  2727 => <(Permute1W,Permute1X,Permute0Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  1831 => <(Permute1W,Permute1X,Permute1X,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  687 => <(Permute1W,Permute1Y,Permute0Z,Permute0Y) as XMVectorPermute>::XMVectorPermute(a, b),
  2223 => <(Permute1W,Permute1Y,Permute0Z,Permute1X) as XMVectorPermute>::XMVectorPermute(a, b),
  3503 => <(Permute1W,Permute1Y,Permute1Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  4015 => <(Permute1W,Permute1Y,Permute1Z,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1719 => <(Permute1W,Permute1Z,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  3895 => <(Permute1W,Permute1Z,Permute1X,Permute1W) as XMVectorPermute>::XMVectorPermute(a, b),
  1399 => <(Permute1W,Permute1Z,Permute1Y,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  2999 => <(Permute1W,Permute1Z,Permute1Z,Permute1Y) as XMVectorPermute>::XMVectorPermute(a, b),
  3511 => <(Permute1W,Permute1Z,Permute1Z,Permute1Z) as XMVectorPermute>::XMVectorPermute(a, b),
  1527 => <(Permute1W,Permute1Z,Permute1W,Permute0Z) as XMVectorPermute>::XMVectorPermute(a, b),
  191 => <(Permute1W,Permute1W,Permute0Z,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1727 => <(Permute1W,Permute1W,Permute0Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  383 => <(Permute1W,Permute1W,Permute1Y,Permute0X) as XMVectorPermute>::XMVectorPermute(a, b),
  1983 => <(Permute1W,Permute1W,Permute1Z,Permute0W) as XMVectorPermute>::XMVectorPermute(a, b),
  _ => return None }) }
