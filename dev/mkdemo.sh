#!/bin/bash
# mkdemo.sh ID NP TIMEOUT [extra demo.sh text]: writes demo.sh that builds demo.cc against the current tree and runs it in a scratch directory
D=/verif/seeded/$1
cat > $D/demo.sh <<EOF
#!/bin/bash
# Builds demo.cc against the tree in the current directory and runs it in a scratch directory.
HERE=\$(cd "\$(dirname "\$0")" && pwd); R=\$PWD
W=\$(mktemp -d); trap 'rm -rf "\$W"' EXIT
export HOME=\${HOME:-/root} TMPDIR=\$W
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm_rsh_agent=false
mpic++ -std=c++14 -w -O1 -DHAVE_MPI=1 -DHAVE_SILO=1 -DHAVE_BOOST=1 -DNDEBUG \\
  -I\$R/src -I\$R/_build -I\$R/polytope_c -I/usr/include/hdf5/serial "\$HERE/demo.cc" -o "\$W/demo" \\
  \$R/_build/polytope_c/libpolytope_c.a \$R/_build/src/libpolytope.a -lsiloh5 /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.a \\
  -lcrypto -lcurl -lpthread -lsz -lz -ldl -lm || exit 0   # cannot be built: no verdict
cd "\$W"
timeout -k 5 $3 mpirun --oversubscribe -n $2 ./demo
rc=\$?
echo "exit status \$rc"
[ \$rc -eq 0 ]
EOF
chmod +x $D/demo.sh
