"""Writes spec/TTab.tla: squared critical values of Student's t (two sided), in milli, by integer degrees of freedom."""
from scipy import stats
alphas = [1, 5, 10, 20, 30, 50, 70, 90]
dfs = list(range(1, 121)) + [10**7]
print("---- MODULE TTab ----")
print("\\* Round(1000 * t^2) for the two-sided level alpha (percent); rows are df = 1..120 and infinity.")
for a in alphas:
    v = [int(round(1000 * stats.t.ppf(1 - a / 200, d) ** 2)) for d in dfs]
    print("TSq%d == <<%s>>" % (a, ", ".join(map(str, v))))
print("TSq(a) == CASE " + " [] ".join("a = %d -> TSq%d" % (a, a) for a in alphas))
print("====")
