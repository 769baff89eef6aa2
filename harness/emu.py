"""Emulated accelerators.

The library chooses some code paths by `jax.default_backend()` and some by a switch; those paths are Pallas
kernels, which this sandbox cannot compile.  Pallas has an interpreter which runs the very same kernel function on
the CPU, so: `VERIF_EMULATE=gpu|tpu|cpu` (set per job, never by a user) makes `jax.default_backend()` answer that
name and every `pallas_call` run in the interpreter.  Nothing of the library is replaced.  It must be called
before the library is imported (its default merge backend is fixed at import).
"""
import os


def install():
    kind = os.environ.get("VERIF_EMULATE", "")
    if not kind:
        return
    import jax
    from jax.experimental import pallas as pl

    real_call = pl.pallas_call
    if getattr(real_call, "_verif_emulated", False):
        return

    def pallas_call(kernel, *args, **kwargs):
        kwargs.pop("backend", None)
        kwargs.pop("compiler_params", None)
        kwargs["interpret"] = True
        return real_call(kernel, *args, **kwargs)

    pallas_call._verif_emulated = True

    # The interpreter has no rule for the GPU's atomic operations.  It runs the programs of the grid one after
    # another, so read-modify-write is exactly what an atomic operation does there.
    from jax.experimental.pallas import triton
    import jax.numpy as jnp

    def atomic(combine):
        def op(ref, idx, val, *, mask=None):
            old = ref[idx]
            new = combine(old, val)
            ref[idx] = new if mask is None else jnp.where(mask, new, old)
            return old
        return op

    triton.atomic_or = atomic(lambda old, val: old | val)
    triton.atomic_and = atomic(lambda old, val: old & val)
    triton.atomic_xor = atomic(lambda old, val: old ^ val)
    triton.atomic_add = atomic(lambda old, val: old + val)
    triton.atomic_max = atomic(jnp.maximum)
    triton.atomic_min = atomic(jnp.minimum)
    triton.atomic_xchg = atomic(lambda old, val: val)

    def atomic_cas(ref, cmp, val):
        old = ref[...]
        ref[...] = jnp.where(old == cmp, val, old)
        return old

    triton.atomic_cas = atomic_cas
    pl.pallas_call = pallas_call
    if kind in ("gpu", "tpu"):
        jax.default_backend = lambda: kind
