export PATH=/opt/venv/bin:$PATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 PYTHONWARNINGS=ignore
export JAX_PLATFORMS=cpu JAX_PLATFORM_NAME=cpu TF_CPP_MIN_LOG_LEVEL=3
export SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy RAY_USAGE_STATS_ENABLED=0
# one core per worker process
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
