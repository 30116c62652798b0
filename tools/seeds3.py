import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
from seeds2 import BB
R = "source/include/firefly/Reconstructor.hpp"

seed("C17-a", "C17", [("source/AmplitudeParser.cpp", """          ++distinct_master_counter;
        } else
          amplitude_mapping[integral.second].emplace_back(std::make_pair(parser_counter, masters[integral.first]));

        functions.emplace_back("1");
        ++parser_counter;
""", """          ++distinct_master_counter;

          functions.emplace_back("1");
          ++parser_counter;
        }
""")],
 "a function of the expression without a replacement rule of its own that is also a basis function because it occurs on the right-hand side of another rule",
 "the contribution of that function to its coefficient is lost",
 sh='''#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/ffdemo.XXXXXX)
trap 'rm -r -- "$W"' EXIT
cd "$W"
mkdir config replacements
printf 'f\\n' > config/functions
printf 'x\\n' > config/vars
printf 'f[1]*(x+1)+f[2]*(x^2+3)\\n' > in.m
printf '{f[1]->f[2]*(x+5)}\\n' > replacements/t.m
timeout 100 /repo/_build/default/ff_insert -nfs in.m > log 2>&1 || { cat log; exit 2; }
find . -type f
cat out_in.m
# f[2]: (x+1)*(x+5)+x^2+3 = 2*x^2+6*x+8
tr -d ' \\n' < out_in.m > flat
cat flat
python3 - flat <<'P'
import re, sys
t = open(sys.argv[1]).read()
m = re.search(r"f\\[2\\]\\*(.*?)(?=[,;}]|$)", t)
e = m.group(1).replace("^", "**")
for x in (1, 2, 3, 7):
    if eval(e, {"x": x}) != 2 * x * x + 6 * x + 8:
        sys.exit(1)
P
''')

seed("C16-a", "C16", [("source/utils.cpp", """        tmp = (tmp + 1) >> 1;

        if ((tmp << 1) < queue_length && tmp * thr_n != queue_length) {
          tmp <<= 1;
        }

        return std::min(max_bunch_size, tmp);
""", """        tmp = std::min(max_bunch_size, (tmp + 1) >> 1);

        // Use a larger bunch when the jobs would not cover the queue
        if ((tmp << 1) < queue_length && tmp * thr_n != queue_length) {
          tmp <<= 1;
        }

        return tmp;
""")],
 "a maximum bunch size above one and a queue that is longer than the threads can take with bunches of that size",
 "the black box is called with bunches twice as large as the configured maximum",
 '''
#include "firefly/utils.hpp"
#include <iostream>
int main() {
  for (uint32_t m : {2, 4, 8, 16, 32, 64, 128})
    for (uint32_t thr : {1, 2, 3, 5, 8})
      for (uint32_t q = 1; q != 2000; ++q)
        if (firefly::compute_bunch_size(q, thr, m) > m) { std::cout << "bunch above " << m << " for " << q << "\\n"; return 1; }
  return 0;
}
''')

seed("C05-a", "C05", [(R, """                    if (!combine_results && !tmp_gdi.empty()) {
                      ff_map gi_ffi;""", """                    if (!tmp_gdi.empty()) {
                      ff_map gi_ffi;""")],
 "the factor scan of a function with factors in numerator and denominator in the same variable, where the one of the numerator has coefficients that need more than one prime and the one of the denominator has not",
 "the numerator factor is taken although it was guessed from a single prime: the reported factor does not divide the function",
 BB + '''
int main() {
  std::vector<std::string> v {"x", "y"}, f {"(x+123456789012345678901234567/7)*(x*y^2+y+3)/((x+5)*(y^2*x+2*x^2+7))"};
  BB bb(f, v);
  Reconstructor<BB> rec(2, 1, 1, bb, Reconstructor<BB>::SILENT);
  rec.enable_factor_scan();
  rec.stop_after_factor_scan();
  rec.reconstruct();
  auto fac = rec.get_factors_string(v);
  std::cout << fac[0] << "\\n";
  FFInt::set_new_prime(primes()[100]);
  ShuntingYardParser p(std::vector<std::string> {fac[0], "(x+123456789012345678901234567/7)/(x+5)"}, v);
  p.precompute_tokens();
  FFInt q(0);
  bool same = true;
  FFInt first;
  for (uint64_t k = 1; k != 6; ++k) {
    auto y = p.evaluate_pre(std::vector<FFInt> {FFInt(uint64_t(1000 * k + 3)), FFInt(uint64_t(77 * k))});
    FFInt r = y[0] / y[1];
    if (k == 1) first = r;
    if (r != first) same = false;
  }
  return same ? 0 : 1;
}
''', cfg="flint")

seed("C03-b", "C03", [("source/ParserUtils.cpp", """          tmp_numerator.clear();
          tmp_denominator.clear();
""", """          tmp_numerator.clear();
""")],
 "factor scan, saved state, a resumed run and a function with factors in two variables of which the first one has a denominator",
 "the resumed run attaches the denominator factor of one variable to the next variable as well: the result is another function",
 BB + '''
int main(int argc, char** argv) {
  std::vector<std::string> v {"x", "y"}, f {"(x+3)*(y+7)*(x*y+1234567890123456789012345678901234567890*y^2+1)/((x+5)*(y+11)*(x+y+17))"};
  BB bb(f, v);
  Reconstructor<BB> rec(2, 1, 1, bb, Reconstructor<BB>::SILENT);
  if (argc == 1) {
    rec.enable_factor_scan();
    rec.set_tags({"f"});
    rec.reconstruct(1);
    return 0;
  }
  rec.set_tags({"f"});
  rec.resume_from_saved_state();
  rec.reconstruct();
  auto r = rec.get_result();
  for (auto& e : r) std::cout << e.to_string(v) << "\\n";
  return wrong(r, f, v) != 0;
}
''', cfg="flint", run="timeout 100 ./demo && timeout 100 ./demo resume")

seed("C07-a", "C07", [("source/include/firefly/MPIWorker.hpp", """      } else if (status.MPI_TAG == NEW_PRIME) {
        tp.kill_all();
        results.clear();
        tasks = 0;
""", """      } else if (status.MPI_TAG == NEW_PRIME) {
        tp.kill_all();
        tasks = 0;
""")],
 "the shift scan in a distributed run: a worker process finishes an evaluation after it has sent its last package of a scan (timing)",
 "values of the old points are delivered to the next stage: the run is aborted",
 BB.replace("if (calls++ == stop_at) _exit(77);", "usleep(500 + rand() % 4000);") + '''
#include "firefly/MPIWorker.hpp"
int main(int argc, char** argv) {
  int provided, rank;
  MPI_Init_thread(NULL, NULL, MPI_THREAD_SERIALIZED, &provided);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  std::vector<std::string> v {"x", "y", "z"}, f {"(x*y^3+1234567890123456789012345678901234567890123456789012345678901234567890*y^2*z^2+1)/(x^4+y*z^2+17)", "(x+y+z+1)^4/(x*y+7)"};
  BB bb(f, v);
  int bad = 0;
  if (rank == 0) {
    Reconstructor<BB> rec(3, 4, 1, bb, Reconstructor<BB>::SILENT);
    rec.enable_shift_scan();
    rec.reconstruct();
    bad = wrong(rec.get_result(), f, v);
  } else {
    MPIWorker<BB> w(3, 4, 1, bb);
  }
  MPI_Finalize();
  return bad;
}
''', cfg="mpi", cxx="mpicxx", sh='''#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/ffdemo.XXXXXX)
trap 'rm -r -- "$W"' EXIT
cd "$W"
mpicxx -pthread -O1 -std=gnu++14 -I/repo/source/include -I/repo/_build/mpi/include "$D/demo.cpp" /repo/_build/mpi/libfirefly.a -lgmp -lz -o demo
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 TMPDIR="$W"
for i in 1 2 3 4 5 6 7 8; do
  timeout 30 mpirun --oversubscribe --mca btl self,tcp -np 3 ./demo
done
''')
