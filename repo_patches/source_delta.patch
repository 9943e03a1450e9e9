From 94de32afa6683fa40e41ca1edecfb828d8d9bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 01/21] fix: use dynamics of the chain itself instead of the
 first chain with the same resonance name

---
 src/ampform_dpd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index e848bd2..934f8d8 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -184,7 +184,7 @@ class DalitzPlotDecompositionBuilder:
         terms = []
         parameter_defaults: dict[sp.Basic, complex] = {}
         for chain in self.decay.get_subsystem(subsystem_id).chains:
-            formulate_dynamics = self.dynamics_choices.get_builder(chain.resonance.name)
+            formulate_dynamics = self.dynamics_choices.get_builder(chain)
             dynamics = formulate_dynamics(chain)
             parameter_defaults.update(dynamics.parameters)
             resonance_spin = sp.Rational(chain.resonance.spin)
-- 
2.43.0


From 89989498e7f998c14392b5955cb18cc1e92081da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 02/21] fix: return cleaned up intensity if cleanup_summations
 is set

---
 src/ampform_dpd/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index 934f8d8..b30f996 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -149,10 +149,7 @@ class DalitzPlotDecompositionBuilder:
             intensity = intensity.cleanup()  # type:ignore[assignment]
         return AmplitudeModel(
             decay=self.decay,
-            intensity=PoolSum(
-                sp.Abs(aligned_amp) ** 2,
-                *allowed_helicities.items(),
-            ),
+            intensity=intensity,
             amplitudes=amplitude_definitions,
             variables=angle_definitions,
             parameter_defaults=parameter_defaults,
-- 
2.43.0


From 75dfa2252aad171dd90f0e76a7de46a81d5cb5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 03/21] fix: return independent functions from cached lambdify
 with parameters

---
 src/ampform_dpd/io/cached.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index 057c21a..70c2f69 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -9,16 +9,14 @@ import cloudpickle
 from ampform.sympy._cache import cache_to_disk  # noqa: PLC2701
 from ampform.sympy.cached import doit, simplify, subs, trigsimp, unfold, xreplace
 from frozendict import frozendict
+from tensorwaves.function import ParametrizedBackendFunction
 from tensorwaves.function.sympy import create_function, create_parametrized_function
 
 if TYPE_CHECKING:
     from collections.abc import Mapping
 
     import sympy as sp
-    from tensorwaves.function import (
-        ParametrizedBackendFunction,
-        PositionalArgumentFunction,
-    )
+    from tensorwaves.function import PositionalArgumentFunction
     from tensorwaves.interface import Function, ParameterValue, ParametrizedFunction
 
 __all__ = [
@@ -73,7 +71,12 @@ def lambdify(
         jax.config.update("jax_enable_x64", True)
     if parameters is None:
         return _lambdify_impl(expr, backend=backend)
-    return _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    func = _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    return ParametrizedBackendFunction(  # the cached instance is mutable
+        function=func.function,
+        argument_order=func.argument_order,
+        parameters={str(symbol): value for symbol, value in parameters.items()},
+    )
 
 
 @cache
-- 
2.43.0


From 0e30f99fc73c52b9f1ea5ae72406c2c291d96e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 04/21] fix: use actual helicities of decay products in Wigner
 function of deserialized chain

---
 src/ampform_dpd/io/serialization/amplitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 8aad442..702281c 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -132,7 +132,7 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
     # -----------------------
     weight, weight_val = _get_weight(chain_definition, to_latex)
     # -----------------------
-    (i, λi_val), (j, λj_val) = _get_decay_product_helicities(chain_definition)
+    (i, _), (j, _) = _get_decay_product_helicities(chain_definition)
     θij, θij_expr = formulate_scattering_angle(i, j)
     jR = sp.Rational(chain_definition["propagators"][0]["spin"])  # noqa: N806
     R_node, λR_val = _get_resonance_helicity(chain_definition)  # noqa: N806
@@ -146,7 +146,7 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
         weight
         * h_prod
         * h_dec
-        * Wigner.d(jR, λR, λi_val - λj_val, θij)
+        * Wigner.d(jR, λR, _get_helicity_symbol(i) - _get_helicity_symbol(j), θij)
         * dynamics.expression
     )
     amplitude_expression = amplitude_expression.subs({λR: λR_val})
-- 
2.43.0


From c2217f0cd76328e5d641ba95dd6670ac3518160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 05/21] fix: get spin of final state in recoupling of LS
 vertices

---
 src/ampform_dpd/io/serialization/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 702281c..848b40e 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -329,7 +329,7 @@ def _get_child_spins(
     spins = []
     for node_item in node:
         if isinstance(node_item, int):
-            spins.append(sp.Rational(final_state[node_item]))
+            spins.append(sp.Rational(final_state[node_item].spin))
         else:
             spins.append(__get_propagator_spin(chain_definition))
     return tuple(spins)
-- 
2.43.0


From f472cbb108912e3556e7c5b65891ae7234e35d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 06/21] fix: insert correct dimensions in deserialized
 production form factor

---
 src/ampform_dpd/io/serialization/dynamics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index cbf1fcf..42d8023 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -80,10 +80,14 @@ def formulate_form_factor(vertex: Vertex, model: ModelDefinition) -> DefinedExpr
     if function_type == "BlattWeisskopf":
         node = vertex["node"]
         s = to_mandelstam_symbol(node)
-        m1, m2 = (to_mass_symbol(i) for i in node)
+        m1, m2 = (
+            to_mass_symbol(i) if isinstance(i, int) else sp.sqrt(to_mass_symbol(i))
+            for i in node
+        )
         if all(isinstance(i, int) for i in node):
             meson_radius = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
         else:
+            s **= 2
             initial_state = get_initial_state(model)
             meson_radius = sp.Symbol(f"R_{{{initial_state.latex}}}", nonnegative=True)
         angular_momentum = int(function_definition["l"])
-- 
2.43.0


From 71035e69cb98b10235e1781b18e6107b502379a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 07/21] fix: avoid collision of channel masses of different
 multichannel Breit-Wigners

---
 src/ampform_dpd/io/serialization/dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index 42d8023..cc66899 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -157,8 +157,8 @@ def formulate_multichannel_breit_wigner(  # noqa: PLR0914
         Γi = sp.Symbol(
             Rf"\Gamma_{{{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
         )
-        mi1 = sp.Symbol(f"m_{{a,{channel_idx}}}", nonnegative=True)
-        mi2 = sp.Symbol(f"m_{{b,{channel_idx}}}", nonnegative=True)
+        mi1 = sp.Symbol(f"m_{{a,{channel_idx}}}^{{{resonance}}}", nonnegative=True)
+        mi2 = sp.Symbol(f"m_{{b,{channel_idx}}}^{{{resonance}}}", nonnegative=True)
         angular_momentum = int(channel_definition["l"])
         channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, d))
         parameter_defaults.update({
-- 
2.43.0


From 60ce40b031dd4fea59a2f79c183e0d5f01eb7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 08/21] fix: convert particles without parity

---
 src/ampform_dpd/adapter/qrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 519f879..7c34406 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -143,7 +143,7 @@ def _to_particle(
         name=particle.name,
         latex=particle.name if particle.latex is None else particle.latex,
         spin=particle.spin,
-        parity=int(particle.parity),  # type:ignore[arg-type]
+        parity=None if particle.parity is None else int(particle.parity),  # type:ignore[arg-type]
         mass=particle.mass,
         width=particle.width,
     )
@@ -164,7 +164,7 @@ def _to_state(obj: Any, index: StateIDTemplate | None = None):
         name=obj.name,
         latex=obj.name if obj.latex is None else obj.latex,  # pyright:ignore[reportUnnecessaryComparison]
         spin=obj.spin,
-        parity=int(obj.parity),  # type:ignore[arg-type]
+        parity=None if obj.parity is None else int(obj.parity),  # type:ignore[arg-type]
         mass=obj.mass,
         width=obj.width,
         index=index,
-- 
2.43.0


From 4cf0b9c6f30873258f0715edbb424149e8e6c62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 09/21] fix: render empty cells for chains without LS couplings
 in Markdown table

---
 src/ampform_dpd/io/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index a9b57e0..6ff7174 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -188,9 +188,11 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         R"mass (MeV)",
         R"width (MeV)",
     ]
-    if any(c.outgoing_ls is not None for c in decay_chains):
+    render_outgoing_l = any(c.outgoing_ls is not None for c in decay_chains)
+    render_incoming_l = any(c.incoming_ls is not None for c in decay_chains)
+    if render_outgoing_l:
         column_names.append(R"$L_\mathrm{dec}^\mathrm{min}$")
-    if any(c.incoming_ls is not None for c in decay_chains):
+    if render_incoming_l:
         column_names.append(R"$L_\mathrm{prod}^\mathrm{min}$")
     src = _create_markdown_table_header(column_names)
     for chain in decay_chains:
@@ -201,10 +203,10 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
             f"{int(1e3 * chain.resonance.mass):,.0f}",
             f"{int(1e3 * chain.resonance.width):,.0f}",
         ]
-        if chain.outgoing_ls is not None:
-            row_items.append(chain.outgoing_ls.L)
-        if chain.incoming_ls is not None:
-            row_items.append(chain.incoming_ls.L)
+        if render_outgoing_l:
+            row_items.append(" " if chain.outgoing_ls is None else chain.outgoing_ls.L)
+        if render_incoming_l:
+            row_items.append(" " if chain.incoming_ls is None else chain.incoming_ls.L)
         src += _create_markdown_table_row(row_items)
     return src
 
-- 
2.43.0


From ec4e907ca209c07873117e769130754bb1120d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 10/21] fix: do not generate LS couplings with half-integer
 mismatch

---
 src/ampform_dpd/spin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/spin.py b/src/ampform_dpd/spin.py
index 8e1ba1e..1b0a698 100644
--- a/src/ampform_dpd/spin.py
+++ b/src/ampform_dpd/spin.py
@@ -31,6 +31,7 @@ def generate_ls_couplings(
         for L in angular_momenta
         for S in coupled_spins
         if abs(L - S) <= parent_spin <= L + S
+        if float(L + S - parent_spin).is_integer()
     }
     return sorted(ls_couplings)
 
-- 
2.43.0


From b12a6fe9dd382926d4f0bc8b769990dd759eb832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 11/21] fix: conserve helicity of initial state in deserialized
 chain amplitude

---
 src/ampform_dpd/io/serialization/amplitude.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 848b40e..b4b864e 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -144,6 +144,7 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
     h_dec = formulate_recoupling(model, chain_idx, vertex_idx=1)
     amplitude_expression = (
         weight
+        * δ(λ0, λR - _get_helicity_symbol(subsystem_id))
         * h_prod
         * h_dec
         * Wigner.d(jR, λR, _get_helicity_symbol(i) - _get_helicity_symbol(j), θij)
-- 
2.43.0


From 78ed4f44cb9a75b6d8b5f3e3a5c6eab5c502a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 12/21] fix: include parity-flipped resonance helicity in
 deserialized production vertex

---
 src/ampform_dpd/io/serialization/amplitude.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index b4b864e..64cc5e1 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -135,7 +135,7 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
     (i, _), (j, _) = _get_decay_product_helicities(chain_definition)
     θij, θij_expr = formulate_scattering_angle(i, j)
     jR = sp.Rational(chain_definition["propagators"][0]["spin"])  # noqa: N806
-    R_node, λR_val = _get_resonance_helicity(chain_definition)  # noqa: N806
+    R_node, _ = _get_resonance_helicity(chain_definition)  # noqa: N806
     λR = _get_helicity_symbol(R_node)
     # -----------------------
     A = _generate_amplitude_index_bases()
@@ -150,7 +150,9 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
         * Wigner.d(jR, λR, _get_helicity_symbol(i) - _get_helicity_symbol(j), θij)
         * dynamics.expression
     )
-    amplitude_expression = amplitude_expression.subs({λR: λR_val})
+    amplitude_expression = sp.Add(*[
+        amplitude_expression.subs({λR: λR_val}) for λR_val in create_spin_range(jR)
+    ])
     amplitude_symbol = A[subsystem_id][λ0, λ1, λ2, λ3]
     return {
         amplitude_symbol: amplitude_expression,
-- 
2.43.0


From 31ddf608c8707b8c09fb336af8920c19130291d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 13/21] fix: use radius of each channel in deserialized
 multichannel Breit-Wigner

---
 src/ampform_dpd/io/serialization/dynamics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index cc66899..462e25f 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -160,8 +160,12 @@ def formulate_multichannel_breit_wigner(  # noqa: PLR0914
         mi1 = sp.Symbol(f"m_{{a,{channel_idx}}}^{{{resonance}}}", nonnegative=True)
         mi2 = sp.Symbol(f"m_{{b,{channel_idx}}}^{{{resonance}}}", nonnegative=True)
         angular_momentum = int(channel_definition["l"])
-        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, d))
+        di = sp.Symbol(
+            Rf"R_{{{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
+        )
+        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, di))
         parameter_defaults.update({
+            di: channel_definition["d"],
             mi1: channel_definition["ma"],
             mi2: channel_definition["mb"],
             Γi: channel_definition["gsq"],
-- 
2.43.0


From 5887f845e0cb6d4971be4b901149e5cb6599e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 14/21] fix: take the interactions of a chain by node ID
 instead of mapping order

---
 src/ampform_dpd/adapter/qrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 7c34406..d34dd4a 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -93,7 +93,7 @@ def _to_decay_chain(
     spectator_id, resonance_id = sorted(topology.get_edge_ids_outgoing_from_node(0))
     child1_id, child2_id = sorted(topology.get_edge_ids_outgoing_from_node(1))
     resonance_id, *_ = sorted(topology.get_edge_ids_ingoing_to_node(1))
-    production_node, decay_node = transition.interactions.values()
+    production_node, decay_node = transition.interactions[0], transition.interactions[1]
     return ThreeBodyDecayChain(
         decay=IsobarNode(
             parent=parent,
-- 
2.43.0


From 7da474488b87f5adb0d2424bd451b01c4e799806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 15/21] fix: keep transitions of a one-time iterable in
 filter_min_ls

---
 src/ampform_dpd/adapter/qrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index d34dd4a..0c3ee47 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -191,6 +191,7 @@ def filter_min_ls(
     transitions: Iterable[FrozenTransition[EdgeType, NodeType]],
     node_ids: set[int] | None = None,
 ) -> tuple[FrozenTransition[EdgeType, NodeType], ...]:
+    transitions = tuple(transitions)
     available_node_ids = {i for t in transitions for i in t.interactions}
     if available_node_ids != {0, 1}:
         msg = (
-- 
2.43.0


From 3c6cf1d450274d53efff47ba64c23c2601e4c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 16/21] fix: do not confuse production and decay couplings in
 filter_min_ls

---
 src/ampform_dpd/adapter/qrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 0c3ee47..4128fa9 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -219,8 +219,8 @@ def filter_min_ls(
             _get_decay_product_ids(transition.topology, resonance_id),
             tuple(
                 node
-                for i, node in transition.interactions.items()
-                if node and i not in node_ids
+                for i, node in sorted(transition.interactions.items())
+                if i not in node_ids
             ),
         )
         grouped_transitions[key].append(transition)
-- 
2.43.0


From e12261f57cdef53b9df89295724bc9e7c700cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 17/21] fix: round masses and widths to the nearest MeV in
 Markdown tables

---
 src/ampform_dpd/io/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index 6ff7174..31ad88a 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -172,8 +172,8 @@ def _as_resonance_markdown_table(items: Sequence[Particle | State]) -> str:
             f"`{particle.name}`",
             f"${particle.latex}$",
             Rf"${aslatex(particle, only_jp=True)}$",  # type:ignore[call-arg]
-            f"{int(1e3 * particle.mass):,.0f}",
-            f"{int(1e3 * particle.width):,.0f}",
+            f"{1e3 * particle.mass:,.0f}",
+            f"{1e3 * particle.width:,.0f}",
         ]
         if render_index:
             row_items.insert(0, particle.index if isinstance(particle, State) else " ")
@@ -200,8 +200,8 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         row_items: list = [
             Rf"${chain.resonance.latex} \to {child1} {child2}$",
             Rf"${aslatex(chain.resonance, only_jp=True)}$",  # type:ignore[call-arg]
-            f"{int(1e3 * chain.resonance.mass):,.0f}",
-            f"{int(1e3 * chain.resonance.width):,.0f}",
+            f"{1e3 * chain.resonance.mass:,.0f}",
+            f"{1e3 * chain.resonance.width:,.0f}",
         ]
         if render_outgoing_l:
             row_items.append(" " if chain.outgoing_ls is None else chain.outgoing_ls.L)
-- 
2.43.0


From 0ea081eb28fc2c3a2298113e71892f2a4672842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 18/21] fix: LaTeX representation of ChannelArguments raised
 KeyError

---
 src/ampform_dpd/dynamics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/dynamics/__init__.py b/src/ampform_dpd/dynamics/__init__.py
index 18b94d0..1597ea7 100644
--- a/src/ampform_dpd/dynamics/__init__.py
+++ b/src/ampform_dpd/dynamics/__init__.py
@@ -156,7 +156,7 @@ class ChannelArguments(sp.Expr):
     m2: Any = 0
     angular_momentum: Any = 0
     meson_radius: Any = 1
-    _latex_repr_ = R"\Gamma^\text{channel}\left({{s}}, {{m0}}, {{width}}\right)"
+    _latex_repr_ = R"\Gamma^\text{{channel}}\left({s}, {m0}, {width}\right)"
 
     def evaluate(self) -> sp.Expr:
         s, m0, Γ0, m1, m2, L, R = self.args
-- 
2.43.0


From a8a3de0a31b5dcbc13c1ef19a3b04ab05dc11437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 19/21] fix: product of a DefinedExpression and a number shared
 its parameters

---
 src/ampform_dpd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index b30f996..4a830db 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -496,7 +496,7 @@ class DefinedExpression:
             )
         return DefinedExpression(
             expression=self.expression * other,
-            parameters=self.parameters,
+            parameters=dict(self.parameters),
         )
 
 
-- 
2.43.0


From 779f5d828a5c94091359a185bdb9e406e70155cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 20/21] fix: reactions with LS couplings in some transitions
 only could not be converted

---
 src/ampform_dpd/adapter/qrules.py | 34 +++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 4128fa9..3bb7640 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -72,10 +72,27 @@ def to_three_body_decay(
     )
     return ThreeBodyDecay(
         states={state.index: state for state in outer_states},  # type:ignore[misc]
-        chains=tuple(sorted(_to_decay_chain(t) for t in transitions)),
+        chains=tuple(
+            sorted((_to_decay_chain(t) for t in transitions), key=_chain_sorting_key)
+        ),
     )
 
 
+def _chain_sorting_key(chain: ThreeBodyDecayChain) -> tuple:
+    return (
+        chain.parent,
+        chain.resonance,
+        chain.decay_products,
+        _ls_sorting_key(chain.outgoing_ls),
+        chain.spectator,
+        _ls_sorting_key(chain.incoming_ls),
+    )
+
+
+def _ls_sorting_key(ls: LSCoupling | None) -> tuple[()] | tuple[LSCoupling]:
+    return () if ls is None else (ls,)
+
+
 def _to_decay_chain(
     transition: FrozenTransition[Particle | State, LSCoupling | None],
 ) -> ThreeBodyDecayChain:
@@ -113,7 +130,20 @@ def convert_transitions(
     transitions: Iterable[FrozenTransition],
 ) -> tuple[FrozenTransition[Particle | State, LSCoupling | None], ...]:
     unique_transitions = {_convert_transition(t) for t in transitions}
-    return tuple(sorted(unique_transitions))
+    return tuple(sorted(unique_transitions, key=_transition_sorting_key))
+
+
+def _transition_sorting_key(
+    transition: FrozenTransition[Particle | State, LSCoupling | None],
+) -> tuple:
+    return (
+        transition.topology,
+        transition.states,
+        [
+            (i, _ls_sorting_key(node))
+            for i, node in sorted(transition.interactions.items())
+        ],
+    )
 
 
 def _convert_transition(
-- 
2.43.0


From 8257ad7b4eccfd03a3428f87839e0b5e416f0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:40 +0000
Subject: [PATCH 21/21] fix: number initial and final states first when
 relabeling state IDs

Intermediate states with an ID lower than that of a final state shifted the
final states away from 1, 2, 3, or were taken as spectator.
---
 src/ampform_dpd/adapter/qrules.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 3bb7640..0d5f4bd 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -107,9 +107,9 @@ def _to_decay_chain(
         raise ValueError(msg)
     topology = transition.topology
     parent, *_ = transition.initial_states.values()
-    spectator_id, resonance_id = sorted(topology.get_edge_ids_outgoing_from_node(0))
     child1_id, child2_id = sorted(topology.get_edge_ids_outgoing_from_node(1))
     resonance_id, *_ = sorted(topology.get_edge_ids_ingoing_to_node(1))
+    (spectator_id,) = topology.get_edge_ids_outgoing_from_node(0) - {resonance_id}
     production_node, decay_node = transition.interactions[0], transition.interactions[1]
     return ThreeBodyDecayChain(
         decay=IsobarNode(
@@ -322,10 +322,11 @@ _Transition = TypeVar("_Transition", FrozenTransition, MutableTransition)
 @_impl_normalize_state_ids.register(FrozenTransition)
 @_impl_normalize_state_ids.register(MutableTransition)
 def _(obj: _Transition) -> _Transition:
+    mapping = _create_normal_state_ids(obj.topology)
     return attrs.evolve(
         obj,
         topology=_impl_normalize_state_ids(obj.topology),
-        states={new: obj.states[old] for new, old in enumerate(sorted(obj.states))},
+        states={new: obj.states[old] for old, new in mapping.items() if old in obj.states},
     )
 
 
@@ -340,8 +341,17 @@ def _(obj: ProblemSet) -> ProblemSet:
 
 @_impl_normalize_state_ids.register(Topology)  # type:ignore[attr-defined]
 def _(obj: Topology) -> Topology:
-    mapping = {old: new for new, old in enumerate(sorted(obj.edges))}
-    return obj.relabel_edges(mapping)
+    return obj.relabel_edges(_create_normal_state_ids(obj))
+
+
+def _create_normal_state_ids(topology: Topology) -> dict[int, int]:
+    # initial and final states come first, whatever the IDs of intermediate states
+    old_ids = (
+        *sorted(topology.incoming_edge_ids),
+        *sorted(topology.outgoing_edge_ids),
+        *sorted(topology.intermediate_edge_ids),
+    )
+    return {old: new for new, old in enumerate(old_ids)}
 
 
 @_impl_normalize_state_ids.register(abc.Iterable)  # type:ignore[attr-defined]
-- 
2.43.0

