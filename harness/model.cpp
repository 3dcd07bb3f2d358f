#include "model.h"

Model::Model(const NDR &nn, const KProg &pp, KState &ss) : n(nn), p(pp), st(ss)
{
  divergent.assign(n.groups(), false);
}
void Model::run()
{
  st.out.assign(n.items() * KREG, 0xEEEEEEEE);
  st.outr.assign(n.items() * OUTN, 0xEEEEEEEE);
  for (size_t g = 0; g < n.groups(); g++)
    run_group(g);
}

struct MCopy
{
  bool g2l;
  int dst, src, num, stride;
};

template <class T> static T apply32(uint32_t op, T old, T b, T cmp)
{
  switch (op)
  {
  case 0: return old + b;
  case 1: return old - b;
  case 2: return old + 1;
  case 3: return old - 1;
  case 4: return b;
  case 5: return old == cmp ? b : old;
  case 6: return std::min(old, b);
  case 7: return std::max(old, b);
  case 8: return old & b;
  case 9: return old | b;
  case 10: return old ^ b;
  }
  return old;
}

void Model::run_group(size_t g)
{
  std::vector<int> it = n.group_items(g);
  size_t N = it.size();
  GroupModel gm;
  gm.L.assign(LCELLS, 0);
  gm.L8.assign(L8CELLS, 0);
  struct IS
  {
    uint32_t r[8] = {0}, P[8] = {0};
    size_t pc = 0;
    bool done = false;
    int at = -1; // barrier op
    size_t ncopy = 0;
  };
  std::vector<IS> is(N);
  // pending copies by event slot, from item 0 (all items issue the same)
  std::vector<MCopy> pend[2];
  while (true)
  {
    for (size_t k = 0; k < N; k++)
    {
      IS &s = is[k];
      const std::vector<KI> &code = p.items[it[k]];
      while (!s.done && s.at < 0)
      {
        if (s.pc >= code.size())
        {
          s.done = true;
          for (int i = 0; i < KREG; i++)
            st.out[it[k] * KREG + i] = s.r[i];
          break;
        }
        const KI &o = code[s.pc++];
        uint32_t d = o.d & 7, a = o.a, b = o.b;
        switch (o.op)
        {
        case K_LDG: s.r[d] = st.G[a]; break;
        case K_STG: st.G[a] = s.r[d]; break;
        case K_LDL: s.r[d] = gm.L[a]; break;
        case K_STL: gm.L[a] = s.r[d]; break;
        case K_IMM: s.r[d] = a; break;
        case K_MIX: s.r[d] = s.r[a & 7] * 31 + s.r[b & 7] + 1; break;
        case K_PST: s.P[a & 7] = s.r[d]; break;
        case K_PLD: s.r[d] = s.P[a & 7]; break;
        case K_KT: s.r[d] = KTAB[s.r[a & 7] & 7]; break;
        case K_CALL: s.r[d] = khelper(s.r[a & 7], b); break;
        case K_VEC:
        {
          uint32_t v[4];
          for (int i = 0; i < 4; i++)
            v[i] = s.P[(a & 4) + 3 - i] * 3u + s.r[d];
          for (int i = 0; i < 4; i++)
            s.P[(b & 4) + i] = v[i];
          s.r[d] = v[0] ^ v[3];
          break;
        }
        case K_BARL: case K_BARG: case K_BARLG: case K_WAIT1: case K_WAIT2:
        case K_BARX:
          s.at = o.op * 2 + (o.op == K_BARX ? (a & 3) : 0) + (o.op == K_WAIT1 ? (d & 1) : 0);
          break;
        case K_AS_GL: case K_AS_LG: case K_ASS_GL: case K_ASS_LG:
        case K_AS_GL_CHAIN:
          if (k == 0)
          {
            MCopy c;
            c.g2l = o.op == K_AS_GL || o.op == K_ASS_GL || o.op == K_AS_GL_CHAIN;
            c.dst = a & 0xffff;
            c.src = a >> 16;
            c.num = b & 0xffff;
            c.stride = (o.op == K_ASS_GL || o.op == K_ASS_LG) ? b >> 16 : 1;
            if (o.op != K_AS_GL_CHAIN)
              pend[d & 1].clear();
            pend[d & 1].push_back(c);
          }
          break;
        case K_OUTR: st.outr[it[k] * OUTN + a % OUTN] = s.r[d]; break;
        default:
          if (o.op >= K_GA_ADD && o.op <= K_GA_XOR)
          {
            uint32_t old = st.G[a];
            st.G[a] = apply32<uint32_t>(o.op - K_GA_ADD, old, b, s.r[d]);
            s.r[d] = old;
          }
          else if (o.op == K_GA_IMIN || o.op == K_GA_IMAX)
          {
            uint32_t old = st.G[a];
            st.G[a] = o.op == K_GA_IMIN
                        ? std::min((int32_t)old, (int32_t)b)
                        : std::max((int32_t)old, (int32_t)b);
            s.r[d] = old;
          }
          else if (o.op >= K_LA_ADD && o.op <= K_LA_XOR)
          {
            uint32_t old = gm.L[a];
            gm.L[a] = apply32<uint32_t>(o.op - K_LA_ADD, old, b, s.r[d]);
            s.r[d] = old;
          }
          else if (o.op >= K_G8_ADD && o.op <= K_G8_INC)
          {
            uint64_t old = st.G8[a];
            static const int m[] = {0, 4, 5, 7, 2};
            st.G8[a] = apply32<uint64_t>(m[o.op - K_G8_ADD], old, (uint64_t)b,
                                         (uint64_t)s.r[d]);
            s.r[d] = (uint32_t)old;
          }
          break;
        }
      }
    }
    // synchronise
    int site = -1;
    size_t cnt = 0;
    bool div = false;
    for (auto &s : is)
      if (s.at >= 0)
      {
        cnt++;
        if (site < 0)
          site = s.at;
        else if (site != s.at)
          div = true;
      }
    if (!cnt)
      break;
    barriers++;
    if (div || cnt != N)
      divergent[g] = true;
    if (site >= (int)K_WAIT1 * 2)
    {
      int lo = 0, hi = 1;
      if (site / 2 == K_WAIT1)
        lo = hi = site & 1;
      for (int e = lo; e <= hi; e++)
      {
        for (auto &c : pend[e])
        {
          copies++;
          for (int i = 0; i < c.num; i++)
            if (c.g2l)
              gm.L[c.dst + i] = st.G[c.src + i * c.stride];
            else
              st.G[c.dst + i * c.stride] = gm.L[c.src + i];
        }
        pend[e].clear();
      }
    }
    for (auto &s : is)
      s.at = -1;
  }
}

void gen_init(Run &r, Rnd &q, const GenOpts &o, GenState &s)
{
  s.n = gen_ndr(q, o.max_items, o.max_groups, o.nonuniform, o.offset);
  s.p.items.resize(s.n.items());
  s.st.G.resize(GRO + GAT + s.n.groups() * GPRIV);
  for (auto &x : s.st.G)
    x = q.next();
  s.st.G8.resize(G8N);
  for (auto &x : s.st.G8)
    x = q.next();
}

static KI famop(Rnd &q, int fam, uint32_t cell, bool local)
{
  uint32_t base = local ? (uint32_t)K_LA_ADD : (uint32_t)K_GA_ADD;
  uint32_t v = q(3) ? q(100) : q.next();
  switch (fam)
  {
  case 0: return {base + (uint32_t)q(4), 7, cell, v};
  case 1: return {base + 8, 7, cell, v | (uint32_t)q.next()};
  case 2: return {base + 9, 7, cell, v & (uint32_t)q.next()};
  case 3: return {base + 10, 7, cell, v};
  case 4: return {base + 6, 7, cell, v};
  case 5: return {base + 7, 7, cell, v};
  case 6: return {K_GA_IMIN, 7, cell, v};
  default: return {K_GA_IMAX, 7, cell, v};
  }
}

void gen_group(Run &r, Rnd &q, const GenOpts &o, GenState &s, size_t g)
{
  bool kg = r.keep();
  std::vector<int> it = s.n.group_items(g);
  int N = it.size();
  int gbase = GRO + GAT + g * GPRIV;
  int nl = 2 + q(std::min(10, LCELLS - 2)); // local cells in use
  auto emit = [&](int k, KI i) {
    if (kg)
      s.p.items[it[k]].push_back(i);
  };
  // fixed family of each shared atomic cell over the whole program
  auto gfam = [&](int c) { return c % 8; };
  // initialise local memory
  for (int c = 0; c < nl; c++)
  {
    int k = q(N);
    uint32_t v = q.next();
    emit(k, {K_IMM, 0, v, 0});
    emit(k, {K_STL, 0, (uint32_t)c, 0});
  }
  for (int k = 0; k < N; k++)
    emit(k, {q(2) ? K_BARL : K_BARLG, 0, 0, 0});
  // all items must use the same barrier op: fix up below
  {
    uint32_t b = q(2) ? K_BARL : K_BARLG;
    if (kg)
      for (int k = 0; k < N; k++)
        s.p.items[it[k]].back().op = b;
  }
  int nph = 1 + q(o.max_phases);
  for (int ph = 0; ph < nph; ph++)
  {
    bool kp = r.keep();
    // ownership for this phase: -1 shared read, -2 atomic, -3 async dst,
    // -4 async src, k owner
    std::vector<int> lown(nl), gown(GPRIV);
    std::vector<int> lfam(nl);
    for (int c = 0; c < nl; c++)
    {
      lown[c] = q(10) < 4 ? -1 : q(10) < 4 ? -2 : (int)q(N);
      lfam[c] = q(6);
    }
    for (int c = 0; c < GPRIV; c++)
      gown[c] = q(10) < 4 ? -1 : (int)q(N);
    // async copies issued at the start of the phase
    int nas = 0;
    std::vector<KI> as;
    bool chain = false;
    if (o.async && q(3) == 0)
    {
      nas = 1 + q(2);
      for (int e = 0; e < nas; e++)
      {
        int kind = q(4);
        int num = 1 + q(std::min(nl, 3));
        int stride = kind >= 2 ? 1 + q(2) : 1;
        int lb = q(nl - num + 1);
        int span = (num - 1) * stride + 1;
        if (span > GPRIV)
          continue;
        int gb = q(GPRIV - span + 1);
        bool g2l = kind == 0 || kind == 2;
        bool ok = true;
        // cells must not already take part in another copy
        for (int i = 0; i < num; i++)
          if (lown[lb + i] <= -3)
            ok = false;
        for (int i = 0; i < span; i++)
          if (gown[gb + i] <= -3)
            ok = false;
        if (!ok)
          continue;
        for (int i = 0; i < num; i++)
        {
          lown[lb + i] = g2l ? -3 : -4;
          gown[gb + i * stride] = g2l ? -4 : -3;
        }
        uint32_t op = kind == 0   ? K_AS_GL
                      : kind == 1 ? K_AS_LG
                      : kind == 2 ? K_ASS_GL
                                  : K_ASS_LG;
        uint32_t slot = as.size();
        if (op == K_AS_GL && slot == 1 && q(2) &&
            (as[0].op == K_AS_GL || as[0].op == K_ASS_GL))
        {
          op = K_AS_GL_CHAIN;
          slot = 0;
          chain = true;
        }
        uint32_t dst = g2l ? lb : gbase + gb, src = g2l ? gbase + gb : lb;
        as.push_back({op, slot, dst | src << 16,
                      (uint32_t)num | (uint32_t)stride << 16});
      }
    }
    bool ka = as.empty() ? false : r.keep();
    if (ka && kp)
      for (int k = 0; k < N; k++)
        for (auto &i : as)
          emit(k, i);
    bool gwrite = false;
    for (int k = 0; k < N; k++)
    {
      int nop = q(o.max_ops + 1);
      for (int j = 0; j < nop; j++)
      {
        KI i = {K_IMM, 0, 0, 0};
        uint32_t d = q(7), a, b;
        switch (q(14))
        {
        case 0: case 1: // local load
        {
          int c = q(nl);
          if (lown[c] == -1 || lown[c] == k || lown[c] == -4)
            i = {K_LDL, d, (uint32_t)c, 0};
          else if (lown[c] == -2)
            i = famop(q, lfam[c], c, true);
          else
            i = {K_MIX, d, (uint32_t)q(7), (uint32_t)q(7)};
          break;
        }
        case 2: case 3: // local store
        {
          int c = q(nl);
          if (lown[c] == k)
            i = {K_STL, d, (uint32_t)c, 0};
          else if (lown[c] == -2)
            i = famop(q, lfam[c], c, true);
          else
            i = {K_MIX, d, (uint32_t)q(7), (uint32_t)q(7)};
          break;
        }
        case 4: case 5: // global load
        {
          int c = q(GPRIV);
          if (q(3) == 0)
            i = {K_LDG, d, (uint32_t)q(GRO), 0};
          else if (gown[c] == -1 || gown[c] == k || gown[c] == -4)
            i = {K_LDG, d, (uint32_t)(gbase + c), 0};
          else
            i = {K_CALL, d, (uint32_t)q(7), (uint32_t)q(3)};
          break;
        }
        case 6: case 7: // global store
        {
          int c = q(GPRIV);
          if (gown[c] == k)
          {
            i = {K_STG, d, (uint32_t)(gbase + c), 0};
            gwrite = true;
          }
          else
            i = {K_KT, d, (uint32_t)q(7), 0};
          break;
        }
        case 8: case 9: // shared atomic
          if (o.shared_atomics)
          {
            if (q(4) == 0)
            {
              a = q(G8N);
              i = {a < 2 ? (uint32_t)(q(2) ? K_G8_ADD : K_G8_INC)
                         : (uint32_t)K_G8_MAX,
                   7, a, (uint32_t)q.next()};
            }
            else
            {
              int c = q(GAT);
              i = famop(q, gfam(c), GRO + c, false);
            }
          }
          break;
        case 10: i = {q(2) ? K_PST : K_PLD, d, (uint32_t)q(8), 0}; break;
        case 11: i = {K_VEC, d, (uint32_t)q(8), (uint32_t)q(8)}; break;
        case 12: i = {K_IMM, d, (uint32_t)q.next(), 0}; break;
        case 13:
          i = {K_MIX, d, (uint32_t)q(7), (uint32_t)q(7)};
          if (q(3) == 0)
            i = {K_OUTR, d, (uint32_t)q(OUTN), 0};
          break;
        }
        a = b = 0;
        if (r.keep() && kp)
          emit(k, i);
      }
    }
    if (ka && kp)
    {
      bool both = as.size() == 2 && !chain;
      bool w2 = q(2);
      for (int k = 0; k < N; k++)
      {
        if (both && w2)
          emit(k, {K_WAIT2, 0, 0, 0});
        else
        {
          emit(k, {K_WAIT1, 0, 0, 0});
          if (both)
            emit(k, {K_WAIT1, 1, 0, 0});
        }
      }
    }
    else
      q(2);
    uint32_t bar;
    if (gwrite || ka)
      bar = K_BARLG;
    else
      bar = q(2) ? K_BARL : K_BARLG;
    bool last = ph == nph - 1 && q(2);
    if (!last && kp)
      for (int k = 0; k < N; k++)
        emit(k, {bar, 0, 0, 0});
  }
  for (int k = 0; k < N; k++)
    emit(k, {K_IMM, 7, 0, 0});
}

void describe(Run &r, const GenState &s)
{
  if (!r.desc)
    return;
  const NDR &n = s.n;
  r.d("ndrange dims=%d offset=(%zu,%zu,%zu) global=(%zu,%zu,%zu) "
      "local=(%zu,%zu,%zu) %s groups=%zu",
      n.dims, n.off[0], n.off[1], n.off[2], n.gs[0], n.gs[1], n.gs[2], n.ls[0],
      n.ls[1], n.ls[2], n.uniform ? "CL1.2" : "CL2.0", n.groups());
  for (size_t g = 0; g < n.groups(); g++)
    for (int i : n.group_items(g))
    {
      std::string t;
      for (auto &k : s.p.items[i])
        t += kop_str(k) + "; ";
      if (!t.empty())
        r.d("group %zu item %d: %s", g, i, t.c_str());
    }
}

std::vector<std::string> split_lines(const std::string &s)
{
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size())
  {
    size_t e = s.find('\n', p);
    if (e == std::string::npos)
      e = s.size();
    v.push_back(s.substr(p, e - p));
    p = e + 1;
  }
  return v;
}
