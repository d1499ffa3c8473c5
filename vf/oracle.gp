/* set: only small factors of the order are looked for (large pairing-friendly curves without points) */
vflight = 0;
/* Oracle for curves printed by ecgen. Independent of ecgen's code (uses PARI's arithmetic only). */
vfinf(P) = #P == 1;
vfexord(E, P, n, pr) = {
  if (n <= 0, return(0));
  if (!vfinf(ellmul(E, P, n)), return(0));
  for (i = 1, #pr, if (n % pr[i] == 0 && vfinf(ellmul(E, P, n / pr[i])), return(0)));
  1
};
/* size of the subgroup generated by P (order m1) and Q (order m2): lcm * order of the Weil pairing */
vfspan(E, ch, P, m1, Q, m2, pr) = {
  my(m = lcm(m1, m2), mp = m, w, k);
  while (mp % ch == 0, mp = mp / ch);
  if (mp == 1, return(m));
  P = ellmul(E, P, m / mp); Q = ellmul(E, Q, m / mp);
  if (vfinf(P) || vfinf(Q), return(m));
  w = ellweilpairing(E, P, Q, mp);
  k = mp; for (i = 1, #pr, while (k % pr[i] == 0 && w^(k / pr[i]) == 1, k = k / pr[i]));
  m * k
};
/* gens: [[G, order, cofactor, [[P, order], ...]], ...]; flags: cof = 1: first generator is extra */
vfaudit(E, ch, q, N, gens, cof, known) = {
  my(bad = List(), card, pr, fa, G, o, c, pts, P, po, all, t, w);
  if (E == [], return(["nonsing", 0, []]));
  card = if (known, N, ellcard(E));
  if (card != N, listput(bad, "order"));
  fa = if (vflight, factor(card, 2^18), factor(card)); pr = fa[, 1]~;
  all = List();
  for (i = 1, #gens,
    G = gens[i][1]; o = gens[i][2]; c = gens[i][3]; pts = gens[i][4];
    if (vfinf(G) || !ellisoncurve(E, G), listput(bad, "gen.curve"); next);
    if (!vfexord(E, G, o, pr), listput(bad, "gen.order"); next);
    if (o * c != N, listput(bad, "gen.cofactor"));
    if (!cof || i > 1, listput(all, [G, o]));
    for (j = 1, #pts,
      P = pts[j][1]; po = pts[j][2];
      if (vfinf(P) || !ellisoncurve(E, P), listput(bad, "pt.curve"); next);
      if (po <= 1 || !vfexord(E, P, po, pr), listput(bad, "pt.order"); next);
      if (o % po != 0, listput(bad, "pt.subgroup"); next);
      if (o != card && vfspan(E, ch, G, o, P, po, pr) != o, listput(bad, "pt.subgroup"))));
  w = 1;
  if (#all == 1, w = all[1][2],
    #all == 2, w = vfspan(E, ch, all[1][1], all[1][2], all[2][1], all[2][2], pr),
    #all > 2, w = -1;
      /* more than two generators: some pair must generate already (rank <= 2) or the lcm does */
      for (i = 1, #all, for (j = i + 1, #all,
        t = vfspan(E, ch, all[i][1], all[i][2], all[j][1], all[j][2], pr); if (t > w, w = t))));
  if (w != card && !(vflight && #select(t -> !ispseudoprime(t), pr)), listput(bad, "gen.whole"));
  [Vec(bad), card, [fa[, 1]~, fa[, 2]~]]
};
vfrun(E, ch, q, N, gens, cof, known) = iferr(vfaudit(E, ch, q, N, gens, cof, known), e, [["gperr"], Str(e), []]);
vffield(m, e1, e2, e3) = {
  my(f = Mod(1, 2) * (x^m + x^e1 + if (e2 > 0, x^e2, 0) + if (e3 > 0, x^e3, 0) + 1));
  if (!polisirreducible(f), return(0));
  ffgen(f, 'u)
};
vfel(n, u) = subst(Pol(binary(n)), 'x, u);
vfcm(t, p, D, f) = (f > 0 && isfundamental(D) && D * f^2 == t^2 - 4 * p);
vfembed(p, N, k) = {
  if (N == p, return(k == 0));
  if (gcd(p, N) > 1, return(k == 0));
  if (k <= 0 || Mod(p, N)^k != 1, return(0));
  my(pr = factor(k)[, 1]~);
  for (i = 1, #pr, if (Mod(p, N)^(k / pr[i]) == 1, return(0)));
  1
};
/* least b > 0 with y^2 = x^3 - 3x + b of prime order with a twist of prime order */
vfnums(p) = {
  my(b = 0, E, N);
  while (1, b++;
    if ((4 * 27 - 27 * b^2) % p == 0, next);
    E = ellinit([-3, b], p);
    N = ellcard(E);
    if (isprime(N) && isprime(2 * p + 2 - N), return([b, N])))
};
