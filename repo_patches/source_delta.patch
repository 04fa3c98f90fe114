From 73c1c56dce2468dd8125881dfc45744dea5cb3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 001/151] fix: searchable kernel size in dynamic group
 convolutions

The sliced weight of a group conv was reshaped with the largest kernel
size even when a smaller kernel was selected, so every smaller choice
crashed.
---
 .../architectures/dynamic_ops/mixins/dynamic_conv_mixins.py  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index cf63ec1..8887160 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -188,8 +188,9 @@ class DynamicConvMixin(DynamicChannelMixin):
             mask = mask.flatten()
             weight = weight.flatten(0, 1)
             weight = weight[mask]
-            weight = weight.reshape(
-                [self.groups * out_per_group, in_per_group, *self.kernel_size])
+            weight = weight.reshape([
+                self.groups * out_per_group, in_per_group, *weight.shape[1:]
+            ])
 
         bias = self.bias[out_mask] if self.bias is not None else None
         return weight, bias
-- 
2.43.0


From 6fc2b730024ce810c717bbb87d2ca22c45cc328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 002/151] fix: static export of searchable attention keeps its
 configuration

Exporting a DynamicMultiheadAttention crashed without qkv/proj bias and
dropped qk_scale, dropout rates and max_relative_position, so the static
operator was a different function.
---
 .../bricks/dynamic_multi_head_attention.py    | 19 ++++++++++++-------
 .../bricks/dynamic_relative_position.py       |  2 +-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 8dcd6de..1fce93d 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -201,20 +201,25 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
             embed_dims=embed_dims,
             num_heads=num_heads,
             input_dims=None,
+            attn_drop_rate=self.attn_drop.p,
+            proj_drop_rate=self.proj_drop.p,
             relative_position=self.relative_position,
-            max_relative_position=self.max_relative_position)
+            max_relative_position=self.max_relative_position,
+            qkv_bias=q_b is not None,
+            qk_scale=self.scale,
+            proj_bias=proj_b is not None)
 
         static_mha.w_qs.weight = nn.Parameter(q_w.clone())
-        static_mha.w_qs.bias = nn.Parameter(q_b.clone())
-
         static_mha.w_ks.weight = nn.Parameter(k_w.clone())
-        static_mha.w_ks.bias = nn.Parameter(k_b.clone())
-
         static_mha.w_vs.weight = nn.Parameter(v_w.clone())
-        static_mha.w_vs.bias = nn.Parameter(v_b.clone())
+        if q_b is not None:
+            static_mha.w_qs.bias = nn.Parameter(q_b.clone())
+            static_mha.w_ks.bias = nn.Parameter(k_b.clone())
+            static_mha.w_vs.bias = nn.Parameter(v_b.clone())
 
         static_mha.proj.weight = nn.Parameter(proj_w.clone())
-        static_mha.proj.bias = nn.Parameter(proj_b.clone())
+        if proj_b is not None:
+            static_mha.proj.bias = nn.Parameter(proj_b.clone())
 
         if self.relative_position:
             static_mha.rel_pos_embed_k = self.rel_pos_embed_k.to_static_op()
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index 572880a..e66456e 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -82,7 +82,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
 
         self.current_head_dim = self.mutable_head_dims.activated_channels
         static_relative_position = self.static_op_factory(
-            self.current_head_dim)
+            self.current_head_dim, self.max_relative_position)
         static_relative_position.embeddings_table_v = \
             nn.Parameter(
                 self.embeddings_table_v[:, :self.current_head_dim].clone())
-- 
2.43.0


From 058ba6e4cab0521f776b543a5b224320eb1ffe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 003/151] fix: IndexDict detects a new range that encloses an
 existing one

---
 mmrazor/utils/index_dict.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/utils/index_dict.py b/mmrazor/utils/index_dict.py
index a053024..d9daf15 100644
--- a/mmrazor/utils/index_dict.py
+++ b/mmrazor/utils/index_dict.py
@@ -48,8 +48,7 @@ class IndexDict(OrderedDict):
             start, end = __o
             existed = False
             for s, e in self.keys():
-                existed = (s <= start < e or s < end < e or
-                           (s < start and end < e)) or existed
+                existed = (s < end and start < e) or existed
 
             return existed
 
-- 
2.43.0


From 8dcc73dc2a14a86097dcc23738c52fd27fed06ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 004/151] fix: OneShotMutableChannel no longer shares its
 default candidates

The default list was modified in place, so the second mutable created
without candidates inherited the candidates of the first one; a list
passed by the caller was sorted in place.
---
 .../mutables/mutable_channel/oneshot_mutable_channel.py   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 3265b79..ce197bf 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -23,10 +23,10 @@ class OneShotMutableChannel(SquentialMutableChannel):
                  choice_mode='number',
                  **kwargs):
         super().__init__(num_channels, choice_mode, **kwargs)
-        candidate_choices.sort()
-        self.candidate_choices = candidate_choices
-        if candidate_choices == []:
-            candidate_choices.append(num_channels if self.is_num_mode else 1.0)
+        self.candidate_choices = sorted(candidate_choices)
+        if self.candidate_choices == []:
+            self.candidate_choices.append(
+                num_channels if self.is_num_mode else 1.0)
 
     @property
     def current_choice(self) -> Union[int, float]:
-- 
2.43.0


From 3e4bbd06eaf9d2d1f7a6029c6a0ad558d2b98fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 005/151] fix: a refused second fix_chosen no longer changes
 the channel choice

---
 .../models/mutables/mutable_channel/base_mutable_channel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
index 65d5a44..a3b2f4e 100644
--- a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
@@ -50,14 +50,14 @@ class BaseMutableChannel(BaseMutable, DerivedMethodMixin):
 
     def fix_chosen(self, chosen=None):
         """Fix the mutable  with chosen."""
-        if chosen is not None:
-            self.current_choice = chosen
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        if chosen is not None:
+            self.current_choice = chosen
+
         self.is_fixed = True
 
     def dump_chosen(self) -> DumpChosen:
-- 
2.43.0


From 7d64cdd9397b760396d57d9330c65ced5efd53c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 006/151] fix: a refused second fix_chosen no longer breaks
 DiffChoiceRoute

The inputs were paired with the remaining edges instead of the original
ones after the refused call.
---
 mmrazor/models/mutables/mutable_module/diff_mutable_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index e524ec6..c86301b 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -496,13 +496,13 @@ class DiffChoiceRoute(DiffMutableModule):
         Args:
             chosen (list(str)): the chosen key in ``MUTABLE``.
         """
-        self._unfixed_choices = self.choices
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        self._unfixed_choices = self.choices
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
-- 
2.43.0


From 79e98b2256a11fc2f9e4a287583f6d62a4b94f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 007/151] fix: derived divide mutables use the same divisor for
 choice and mask

---
 mmrazor/models/mutables/derived_mutable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index ac8a8c6..3e31a2f 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -183,10 +183,12 @@ class DerivedMethodMixin:
             current_ratio = ratio
         elif isinstance(ratio, float):
             current_ratio = int(ratio)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         elif isinstance(ratio, BaseMutable):
             current_ratio = int(ratio.current_choice)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         else:
             raise NotImplementedError(
                 f'Not support type of ratio: {type(ratio)}')
-- 
2.43.0


From 9e4bc07ded41e386a06b50998611f837abc79553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 008/151] fix: fixing an op mutable to an unknown choice is
 refused

OneShotMutableOP and the differentiable mutables silently dropped every
candidate.
---
 .../models/mutables/mutable_module/diff_mutable_module.py   | 6 ++++++
 .../mutables/mutable_module/one_shot_mutable_module.py      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index c86301b..c191b4b 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -221,6 +221,9 @@ class DiffMutableOP(DiffMutableModule):
         if isinstance(chosen, str):
             chosen = [chosen]
 
+        assert len(chosen) > 0 and all(c in self.choices for c in chosen), \
+            f'Expected choices in: {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
@@ -503,6 +506,9 @@ class DiffChoiceRoute(DiffMutableModule):
 
         self._unfixed_choices = self.choices
 
+        assert len(chosen) > 0 and all(c in self.choices for c in chosen), \
+            f'Expected choices in: {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
diff --git a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
index 434b050..e4929dc 100644
--- a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
@@ -231,6 +231,9 @@ class OneShotMutableOP(OneShotMutableModule):
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        assert chosen in self.choices, \
+            f'Expected choice in: {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c != chosen:
                 self._candidates.pop(c)
-- 
2.43.0


From 3863ca88466c93145da007e4f44d4164c155eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 009/151] fix: OneHotMutableOP fixes the most probable choice

The boolean of the threshold comparison was used as the index, so the
second candidate was kept whatever the probabilities were.
---
 .../models/mutables/mutable_module/diff_mutable_module.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index c191b4b..70853b9 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -315,10 +315,10 @@ class OneHotMutableOP(DiffMutableOP):
         if not self.is_fixed:
             self.arch_weights = self.sample_weights(arch_param, probs)
             sorted_param = torch.topk(probs, 2)
-            index = (
+            reach_threshold = (
                 sorted_param[0][0] - sorted_param[0][1] >= self.fix_threshold)
-            if index:
-                self.fix_chosen(self.choices[index])
+            if reach_threshold:
+                self.fix_chosen(self.choices[sorted_param[1][0].item()])
 
         if self.is_fixed:
             index = self.choices.index(self._chosen[0])
-- 
2.43.0


From 2c6e501b3df4efd3fcadd16dc5d92350da5ed515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 010/151] fix: gap before the first registered channel range is
 filled

---
 .../mutables/mutable_channel/mutable_channel_container.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
index 5706d07..f9eeecc 100644
--- a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
+++ b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
@@ -115,7 +115,7 @@ class MutableChannelContainer(BaseMutableChannel):
         for start, end in copy.copy(self.mutable_channels):
             if last_end < start:
                 self.register_mutable(
-                    SimpleMutableChannel(last_end - start), last_end, start)
+                    SimpleMutableChannel(start - last_end), last_end, start)
             last_end = end
         if last_end < self.num_channels:
             self.register_mutable(
-- 
2.43.0


From 3987ef2ed5c9353016d437934fb984a495327af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 011/151] fix: ratio choices no longer lose a channel to float
 rounding

---
 .../mutables/mutable_channel/sequential_mutable_channel.py     | 3 ++-
 .../mutable_channel/units/sequential_mutable_channel_unit.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index c2b4f92..8d866da 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -137,4 +137,5 @@ class SquentialMutableChannel(SimpleMutableChannel):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # tolerate the rounding error of ratios like `n / num_channels`
+            return max(1, int(self.num_channels * choice + 1e-6))
diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index d32c5fe..d194de2 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -149,7 +149,8 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # tolerate the rounding error of ratios like `n / num_channels`
+            return max(1, int(self.num_channels * choice + 1e-6))
 
     def _make_divisible_info(self, choice, new_choice):
         logger = MMLogger.get_current_instance()
-- 
2.43.0


From ca207e0e2c42940500cb22a72af37c911ccd73bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 012/151] fix: divisible choices never exceed the channels of a
 unit

---
 .../mutable_channel/units/sequential_mutable_channel_unit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index d194de2..c9edfee 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -134,8 +134,9 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
     def _make_divisible(self, choice_int: int):
         """Make the choice divisible."""
         from mmrazor.models.utils import make_divisible
-        return make_divisible(choice_int, self.divisor, self.min_value,
-                              self.min_ratio)
+        choice_int = make_divisible(choice_int, self.divisor, self.min_value,
+                                    self.min_ratio)
+        return min(choice_int, self.num_channels)
 
     def _num2ratio(self, choice: Union[int, float]) -> float:
         """Convert the a number choice to a ratio choice."""
-- 
2.43.0


From 4cdbcda8b8fc389835ce9967a0245fcdf9d6d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 013/151] fix: init_from_channel_unit does not modify its
 arguments

---
 mmrazor/models/mutables/mutable_channel/units/channel_unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/channel_unit.py
index e730245..bf58ca4 100644
--- a/mmrazor/models/mutables/mutable_channel/units/channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/channel_unit.py
@@ -171,7 +171,7 @@ class ChannelUnit(BaseModule):
                                unit: 'ChannelUnit',
                                args: Dict = {}) -> 'ChannelUnit':
         """Initial a object of current class from a ChannelUnit object."""
-        args['num_channels'] = unit.num_channels
+        args = dict(args, num_channels=unit.num_channels)
         mutable_unit = cls(**args)
         mutable_unit.input_related = unit.input_related
         mutable_unit.output_related = unit.output_related
-- 
2.43.0


From 1e1f152c80671e5aea68d75fc2ff8dbb5147a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 014/151] fix: OneShotMutableChannel exports a choice it can be
 fixed to

---
 .../mutables/mutable_channel/oneshot_mutable_channel.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index ce197bf..f324817 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -40,3 +40,7 @@ class OneShotMutableChannel(SquentialMutableChannel):
         SquentialMutableChannel.current_choice.fset(  # type: ignore
             self,  # type: ignore
             choice)  # type: ignore
+
+    def export_chosen(self) -> Union[int, float]:
+        """Export the choice in the same mode as the candidates."""
+        return self.current_choice
-- 
2.43.0


From 4ab3ffeab4ad5a4d90c3d8663b49fad76f0b8513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 015/151] fix: subnet name prefixes are removed as a whole

---
 mmrazor/structures/subnet/fix_subnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 56b33be..7c57018 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -78,7 +78,8 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
             chosen = subnet_dict.get(alias, None)
         else:
             if prefix:
-                mutable_name = name.lstrip(prefix)
+                mutable_name = name[len(prefix):] \
+                    if name.startswith(prefix) else name
             elif extra_prefix:
                 mutable_name = extra_prefix + name
             else:
-- 
2.43.0


From b0414b375fbaf4c88d1fb3fbd77206b582fad156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 016/151] fix: a copied derived mutable depends on the copied
 sources

---
 mmrazor/models/mutables/derived_mutable.py | 31 ++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index 3e31a2f..a8e052f 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -6,9 +6,11 @@ if sys.version_info < (3, 8):
 else:
     from typing import Protocol
 
+import copy
 import inspect
 import logging
 from itertools import product
+from types import FunctionType
 from typing import Any, Callable, Dict, Iterable, Optional, Set, Union
 
 import torch
@@ -134,6 +136,23 @@ def _concat_mask_fn(mutables: Iterable[MutableChannelProtocol]) -> Callable:
     return fn
 
 
+def _deepcopy_closure(fn: Any, memo: Dict) -> Any:
+    """Deepcopy a function together with its closure variables."""
+    if not isinstance(fn, FunctionType) or not fn.__closure__:
+        return copy.deepcopy(fn, memo)
+
+    def make_cell(value):
+        return (lambda: value).__closure__[0]
+
+    closure = tuple(
+        make_cell(_deepcopy_closure(cell.cell_contents, memo))
+        for cell in fn.__closure__)
+    new_fn = FunctionType(fn.__code__, fn.__globals__, fn.__name__,
+                          fn.__defaults__, closure)
+    new_fn.__kwdefaults__ = fn.__kwdefaults__
+    return new_fn
+
+
 class DerivedMethodMixin:
     """A mixin that provides some useful method to derive mutable."""
 
@@ -286,6 +305,18 @@ class DerivedMutable(BaseMutable, DerivedMethodMixin):
                                  f'but {mutable} is not')
         self.source_mutables = source_mutables
 
+    def __deepcopy__(self, memo: Dict) -> 'DerivedMutable':
+        """The closures of the copy must refer to the copied mutables rather
+        than to the mutables of the original model."""
+        copied = self.__class__.__new__(self.__class__)
+        memo[id(self)] = copied
+        for key, value in self.__dict__.items():
+            if key in ('choice_fn', 'mask_fn'):
+                copied.__dict__[key] = _deepcopy_closure(value, memo)
+            else:
+                copied.__dict__[key] = copy.deepcopy(value, memo)
+        return copied
+
     # TODO
     # has no effect
     def fix_chosen(self, chosen) -> None:
-- 
2.43.0


From e398f1b047540a83463ef13ea948f8522b0d2cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 017/151] fix: expanding a derived mutable without mask

---
 mmrazor/models/mutables/derived_mutable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index a8e052f..e218221 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -177,7 +177,10 @@ class DerivedMethodMixin:
                 f'Not support type of ratio: {type(expand_ratio)}')
 
         mask_fn: Optional[Callable] = None
-        if hasattr(self, 'current_mask'):
+        # the mask of a derived mutable is optional
+        has_mask = self.mask_fn is not None if isinstance(
+            self, DerivedMutable) else hasattr(self, 'current_mask')
+        if has_mask:
             if isinstance(expand_ratio, int):
                 mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
             elif isinstance(expand_ratio, float):
-- 
2.43.0


From a409aff5b0f24d2e7ea9119535b9f2c79e109b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 018/151] fix: a refused second fix_chosen no longer changes
 the choice of a unit

---
 .../mutable_channel/units/sequential_mutable_channel_unit.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index c9edfee..20db7fd 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -83,6 +83,7 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
 
     def fix_chosen(self, choice=None):
         """fix chosen."""
+        assert self.mutable_channel.is_fixed is False
         super().fix_chosen(choice)
         self.mutable_channel.fix_chosen()
 
-- 
2.43.0


From e801fce015aee5ce2a154d610e23483666745e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 019/151] fix: the backward tracer leaves linear nodes out of
 sibling paths

---
 mmrazor/models/task_modules/tracer/parsers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/task_modules/tracer/parsers.py b/mmrazor/models/task_modules/tracer/parsers.py
index c342da7..9b440fc 100644
--- a/mmrazor/models/task_modules/tracer/parsers.py
+++ b/mmrazor/models/task_modules/tracer/parsers.py
@@ -99,6 +99,7 @@ def parse_linear(tracer, grad_fn, module2name, param2module, cur_path,
         visited[name] = True
         tracer.backward_trace(parent, module2name, param2module, cur_path,
                               result_paths, visited, shared_module)
+    cur_path.pop(-1)
 
 
 def parse_cat(tracer, grad_fn, module2name, param2module, cur_path,
-- 
2.43.0


From 56ed558d65f8f5dc72b7766fb02a0e6ea84af867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 020/151] fix: concat nodes of the backward tracer get a stable
 unique name

---
 mmrazor/models/task_modules/tracer/parsers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/parsers.py b/mmrazor/models/task_modules/tracer/parsers.py
index 9b440fc..0474f96 100644
--- a/mmrazor/models/task_modules/tracer/parsers.py
+++ b/mmrazor/models/task_modules/tracer/parsers.py
@@ -119,13 +119,11 @@ def parse_cat(tracer, grad_fn, module2name, param2module, cur_path,
         >>> # ``out`` is obtained by concatenating two tensors
     """
     parents = grad_fn.next_functions
-    concat_id = '_'.join([str(id(p)) for p in parents])
-    concat_id_list = [str(id(p)) for p in parents]
-    concat_id_list.sort()
-    concat_id = '_'.join(concat_id_list)
-    name = f'concat_{concat_id}'
+    # The id of ``grad_fn`` is unique as long as ``grad_fn`` is alive, so a
+    # reference to it is kept in ``visited`` during tracing.
+    name = f'concat_{id(grad_fn)}'
 
-    visited[name] = True
+    visited[name] = grad_fn
     sub_path_lists = list()
     for _, parent in enumerate(parents):
         sub_path_list = PathList()
-- 
2.43.0


From 6c9e07dc0a6e7efbfba7996897a6952bfb8b2fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 021/151] fix: a one-shot unit keeps its configured choice when
 it is prepared

---
 .../mutable_channel/units/one_shot_mutable_channel_unit.py     | 3 ++-
 .../mutables/mutable_channel/units/slimmable_channel_unit.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
index 220d49b..789da9f 100644
--- a/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
@@ -66,7 +66,8 @@ class OneShotMutableChannelUnit(SequentialMutableChannelUnit):
         """Prepare for pruning."""
         if not self.unit_predefined:
             super().prepare_for_pruning(model)
-        self.current_choice = self.max_choice
+        if self.current_choice not in self.candidate_choices:
+            self.current_choice = self.max_choice
 
     # ~
 
diff --git a/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
index a51dce8..994024f 100644
--- a/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
@@ -56,4 +56,5 @@ class SlimmableChannelUnit(OneShotMutableChannelUnit):
             if isinstance(channel.module, dynamic_ops.SwitchableBatchNorm2d) \
                     and len(channel.module.candidate_bn) == 0:
                 channel.module.init_candidates(candidates)
-        self.current_choice = self.max_choice
+        if self.current_choice not in self.candidate_choices:
+            self.current_choice = self.max_choice
-- 
2.43.0


From e5853d808efbaf9573da23274b7f5e53a7648156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 022/151] fix: the backward tracer binds the sum of branches
 that is concatenated

---
 mmrazor/structures/graph/module_graph.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mmrazor/structures/graph/module_graph.py b/mmrazor/structures/graph/module_graph.py
index d907719..3f14688 100644
--- a/mmrazor/structures/graph/module_graph.py
+++ b/mmrazor/structures/graph/module_graph.py
@@ -5,7 +5,7 @@ They model the computation graph of a model based on BaseNode and BaseGraph
 """
 import copy
 from collections import OrderedDict
-from typing import Dict, List, TypeVar, Union
+from typing import Dict, List, Set, TypeVar, Union
 
 import torch.nn as nn
 from torch.nn import Module
@@ -380,6 +380,7 @@ class PathToGraphConverter(GraphConverter):
         super().__init__(model)
         self.path_list = path_list
         self.cat_dict: Dict[str, str] = {}
+        self.parsed_cats: Set[str] = set()
         self.name2module = dict(model.named_modules())
         self._parse(self.path_list)
 
@@ -411,10 +412,20 @@ class PathToGraphConverter(GraphConverter):
 
             # cat node: [cat_path_lists]
             if isinstance(path_unit, PathConcatNode):
+                is_parsed = path_unit.name in self.parsed_cats
+                self.parsed_cats.add(path_unit.name)
                 current_node = self._add_or_find_node(path_unit)
                 self._connect_nexts(current_node, next_nodes)
+                if is_parsed:
+                    return current_node
                 for catpath in path_unit.path_lists:  # sibling
-                    self._parse_helper(catpath, [current_node])
+                    branch_end = current_node
+                    if len(catpath) > 1:
+                        # the branch is the sum of multiple paths
+                        branch_end = self._new_placeholder_node(
+                            'bind_placeholder')
+                        self._connect_nexts(branch_end, [current_node])
+                    self._parse_helper(catpath, [branch_end])
 
             # single node
             else:
-- 
2.43.0


From 6d6691d0d437c0490f82b23649b2959a3c71126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 023/151] fix: sampled operator choices are plain strings

---
 .../models/mutables/mutable_module/one_shot_mutable_module.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
index e4929dc..a488b35 100644
--- a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
@@ -252,7 +252,7 @@ class OneShotMutableOP(OneShotMutableModule):
 
     def sample_choice(self) -> str:
         """uniform sampling."""
-        return np.random.choice(self.choices, 1)[0]
+        return np.random.choice(self.choices, 1)[0].item()
 
     @property
     def choices(self) -> List[str]:
-- 
2.43.0


From 3efd226992788929a7e3077af882c03416b61312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 024/151] fix: custom search groups accept an alias

---
 mmrazor/models/mutators/group_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 569f01e..58eb57c 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -160,7 +160,7 @@ class GroupMixin():
                     grouped_mutable_names.append(item)
 
             # TODO: fix prefix when constructing custom groups.
-            prefix = name2mutable[item].mutable_prefix
+            prefix = group_mutables[-1].mutable_prefix
             group_name = prefix + '_' + str(current_group_nums)
             search_groups[group_name] = group_mutables
             current_group_nums += 1
-- 
2.43.0


From d39aa460c8a167e2a8412db48b0b46e8a44873c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 025/151] fix: a mutable with a derived mutable belongs to one
 search group

---
 mmrazor/models/mutators/group_mixin.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 58eb57c..cf1015d 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -187,24 +187,30 @@ class GroupMixin():
                     current_group_nums += 1
 
         # check whether all the mutable objects are in the search_groups
+        grouped_ids = set(
+            id(mutable) for group in search_groups.values()
+            for mutable in group)
         for name, module in supernet.named_modules():
             if self.is_supported_mutable(module):
-                if name in grouped_mutable_names:
+                if name in grouped_mutable_names or id(module) in grouped_ids:
                     continue
                 else:
                     prefix = module.mutable_prefix
                     group_name = prefix + '_' + str(current_group_nums)
                     search_groups[group_name] = [module]
+                    grouped_ids.add(id(module))
                     current_group_nums += 1
             elif hasattr(module, 'source_mutables'):
                 for each_mutable in module.source_mutables:
                     if self.is_supported_mutable(each_mutable):
-                        if name in grouped_mutable_names:
+                        if name in grouped_mutable_names or \
+                                id(each_mutable) in grouped_ids:
                             continue
                         else:
                             prefix = each_mutable.mutable_prefix
                             group_name = prefix + '_' + str(current_group_nums)
                             search_groups[group_name] = [each_mutable]
+                            grouped_ids.add(id(each_mutable))
                             current_group_nums += 1
 
         grouped_counter = Counter(grouped_mutable_names)
-- 
2.43.0


From d8d90bca319d5eab0c53fde5c980e1ae3a463ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 026/151] fix: the evolution search resumes up to its
 configured last epoch

---
 mmrazor/engine/runner/evolution_search_loop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 644385e..7675ef5 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -141,10 +141,13 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
         if self.predictor_cfg is not None:
             self._init_predictor()
 
+        # `_resume` turns `_max_epochs` into the number of remaining epochs.
+        last_epoch = self._max_epochs
+
         if self.resume_from:
             self._resume()
 
-        while self._epoch < self._max_epochs:
+        while self._epoch < last_epoch:
             self.run_epoch()
             self._save_searcher_ckpt()
 
-- 
2.43.0


From babbfe42cba4987645ba34998b670a981d904491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 027/151] fix: the metric predictor encodes choices without the
 removed np.int

---
 mmrazor/models/task_modules/predictor/metric_predictor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/predictor/metric_predictor.py b/mmrazor/models/task_modules/predictor/metric_predictor.py
index 796c3ac..fba9fcf 100644
--- a/mmrazor/models/task_modules/predictor/metric_predictor.py
+++ b/mmrazor/models/task_modules/predictor/metric_predictor.py
@@ -106,7 +106,7 @@ class MetricPredictor:
                     f'`DumpChosen.meta` of current {key} should not be None '
                     'when converting the search space.')
                 onehot = np.zeros(
-                    len(choice.meta['all_choices']), dtype=np.int)
+                    len(choice.meta['all_choices']), dtype=int)
                 _chosen_index = choice.meta['all_choices'].index(choice.chosen)
             else:
                 if key is not None:
@@ -119,7 +119,7 @@ class MetricPredictor:
                 else:
                     assert len(self.search_groups[index]) == 1
                     choices = self.search_groups[index][0].choices
-                onehot = np.zeros(len(choices), dtype=np.int)
+                onehot = np.zeros(len(choices), dtype=int)
                 _chosen_index = choices.index(choice)
             onehot[_chosen_index] = 1
 
-- 
2.43.0


From 6e0dd4e72a7d6751618f3b196185a3079c150933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 028/151] fix: the metric predictor encodes a model like its
 training subnets

---
 mmrazor/models/task_modules/predictor/metric_predictor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/predictor/metric_predictor.py b/mmrazor/models/task_modules/predictor/metric_predictor.py
index fba9fcf..538794a 100644
--- a/mmrazor/models/task_modules/predictor/metric_predictor.py
+++ b/mmrazor/models/task_modules/predictor/metric_predictor.py
@@ -73,7 +73,11 @@ class MetricPredictor:
             'cause the model of handler in predictor needs to be initialized.')
 
         if self.initialize:
-            model, _ = export_fix_subnet(model)
+            if hasattr(model, 'mutator'):
+                # Same groups and order as the subnets used in training.
+                model = model.mutator.current_choices
+            else:
+                model, _ = export_fix_subnet(model)
             data = self.preprocess(np.array([self.model2vector(model)]))
             score = float(np.squeeze(self.handler.predict(data)))
             if metric.get(self.score_key_list[0], None):
-- 
2.43.0


From 8bae80277ca21a45785c5bdaa42e30726864a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 029/151] fix: the MLP predictor loads a checkpoint of a fitted
 input width

---
 .../models/task_modules/predictor/handler/mlp_handler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/predictor/handler/mlp_handler.py b/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
index e1bd797..f5a3e30 100644
--- a/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
+++ b/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
@@ -132,8 +132,13 @@ class MLPHandler(BaseHandler):
 
     def load(self, path: str) -> None:
         """Load predictor's pretrained weights."""
-        self.model.load_state_dict(
-            torch.load(path, map_location='cpu')['state_dict'])
+        state_dict = torch.load(path, map_location='cpu')['state_dict']
+        in_features = state_dict['fc1.weight'].shape[1]
+        if in_features != self.model.fc1.in_features:
+            # `fit` has adapted the input width to the training data.
+            self.model.fc1 = nn.Linear(in_features,
+                                       self.model.fc1.out_features)
+        self.model.load_state_dict(state_dict)
 
     def save(self, path: str) -> str:
         """Save predictor and return saved path for diff suffix."""
-- 
2.43.0


From 916d59575762a04ef5a387eb18c86bdfb27b8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 030/151] fix: the greedy sampler trains its top candidates one
 by one

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 4f26ee7..9eb5ee8 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -218,6 +218,9 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             2. Pop from the `top_k_candidates` one by one to train
             the supernet.
         """
+        if len(self.top_k_candidates) > 0:
+            # the first candidate was used in the previous iteration
+            self.top_k_candidates.pop(0)
         if len(self.top_k_candidates) == 0:
             self.update_cur_prob(cur_iter=self._iter)
 
-- 
2.43.0


From 83027a2c1d1f682ef2716c7c8e8b470c7c77ecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 031/151] fix: the greedy sampler trains in training mode after
 a validation

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 9eb5ee8..749b298 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -230,6 +230,8 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             self.candidates.extend(sampled_candidates)
 
             self.update_candidates_scores()
+            # the validation leaves the model in evaluation mode
+            self.runner.model.train()
 
             self.candidates.sort_by(key_indicator='score', reverse=True)
             self.candidates = Candidates(
-- 
2.43.0


From 481ae12a3fe858704a45bae5e439c521367a555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 032/151] fix: the greedy sampler probability rises from
 init_prob to max_prob

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 749b298..1a47030 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -263,12 +263,13 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             schedule_cur_steps = cur_iter - self.schedule_start_iter
             if self.prob_schedule == 'linear':
                 tmp = self.max_prob - self.init_prob
-                self.cur_prob = tmp / schedule_all_steps * schedule_cur_steps
+                self.cur_prob = tmp / schedule_all_steps * \
+                    schedule_cur_steps + self.init_prob
             elif self.prob_schedule == 'consine':
-                tmp_1 = (1 - self.init_prob) * 0.5
+                tmp_1 = (self.max_prob - self.init_prob) * 0.5
                 tmp_2 = math.pi * schedule_cur_steps
                 tmp_3 = schedule_all_steps
-                self.cur_prob = tmp_1 * (1 + math.cos(tmp_2 / tmp_3)) \
+                self.cur_prob = tmp_1 * (1 - math.cos(tmp_2 / tmp_3)) \
                     + self.init_prob
             else:
                 raise ValueError('`prob_schedule` is eroor, it should be \
-- 
2.43.0


From c377aef2088994d9816c01f10abadbfcd3b58ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 033/151] fix: a resumed greedy search keeps a target reached
 before the crash

---
 mmrazor/engine/runner/autoslim_greedy_search_loop.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/autoslim_greedy_search_loop.py b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
index cf9752c..39e66b4 100644
--- a/mmrazor/engine/runner/autoslim_greedy_search_loop.py
+++ b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
@@ -95,10 +95,7 @@ class AutoSlimGreedySearchLoop(TestLoop):
         if self.resume_from:
             self._resume()
 
-        for target in self.target_flops:
-            if self.resume_from and self.current_flops <= target:
-                continue
-
+        for target in self.target_flops[len(self.searched_subnet):]:
             if self.current_flops <= target:
                 self.searched_subnet.append(self.current_subnet)
                 self.searched_subnet_flops.append(self.current_flops)
-- 
2.43.0


From af2de963eb1b192068daee61c8754aa1a1ac4cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 034/151] fix: the resource estimator uses its configuration on
 every call

---
 .../estimators/resource_estimator.py          | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index ac5292d..55cef0b 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -117,13 +117,12 @@ class ResourceEstimator(BaseEstimator):
         resource_metrics = dict()
         measure_latency = True if latency_cfg else False
 
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or dict())
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
 
         if latency_cfg:
             latency_cfg = {**self.latency_cfg, **latency_cfg}
@@ -162,13 +161,12 @@ class ResourceEstimator(BaseEstimator):
                 params results (string | float format) of each modules in the
                 ``flops_params_cfg['spec_modules']``.
         """
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or dict())
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
         flops_params_cfg['seperate_return'] = True
 
         assert len(flops_params_cfg['spec_modules']), (
-- 
2.43.0


From 8a039d4b0f1e7139d47ed3a9fdfaf929874d1e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 035/151] fix: count the operations of a depthwise dynamic
 convolution

---
 .../estimators/counters/op_counters/conv_layer_counter.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
index d410e39..aa791c7 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
@@ -93,6 +93,9 @@ class DynamicConv2dCounter(ConvCounter):
             in_channels = module.in_channels
 
         groups = module.groups
+        if groups == module.in_channels == module.out_channels:
+            # depth-wise conv
+            groups = in_channels
 
         filters_per_channel = out_channels / groups
         conv_per_position_flops = \
-- 
2.43.0


From a39db2643bfe3d2c33e0fa3a31b74f26bae71aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 036/151] fix: count the bias of a deconvolution on its whole
 output

---
 .../estimators/counters/op_counters/deconv_layer_counter.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
index 0426fbb..646365a 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
@@ -32,7 +32,7 @@ class ConvTranspose2dCounter(BaseCounter):
         bias_flops = 0
         if module.bias is not None:
             output_height, output_width = output.shape[2:]
-            bias_flops = out_channels * batch_size * output_height * output_height  # noqa: E501
+            bias_flops = out_channels * batch_size * output_height * output_width  # noqa: E501
         overall_flops = overall_conv_flops + bias_flops
 
         module.__flops__ += int(overall_flops)
-- 
2.43.0


From 931b4842a3da8552998d52fed2fabbca059fc09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 037/151] fix: count upsampling for the whole batch

---
 .../counters/op_counters/upsample_layer_counter.py         | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
index 12958b6..a0c0f96 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
@@ -11,10 +11,5 @@ class UpsampleCounter(BaseCounter):
     @staticmethod
     def add_count_hook(module, input, output):
         """Calculate FLOPs and params based on the size of input & output."""
-        output_size = output[0]
-        batch_size = output_size.shape[0]
-        output_elements_count = batch_size
-        for val in output_size.shape[1:]:
-            output_elements_count *= val
-        module.__flops__ += int(output_elements_count)
+        module.__flops__ += int(output.numel())
         module.__params__ += get_model_parameters_number(module)
-- 
2.43.0


From 0fa42c42e851aae4718791c7985245bb6d5345c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 038/151] fix: count the parameters of a module that is called
 repeatedly once

---
 .../estimators/counters/flops_params_counter.py        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 4a3e44d..ef31d67 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -416,8 +416,14 @@ def start_flops_params_count(self, disabled_counters):
                         or counter_type not in disabled_counters):
                     counter = TASK_UTILS.build(
                         dict(type=counter_type, _scope_='mmrazor'))
-                    handle = module.register_forward_hook(
-                        counter.add_count_hook)
+
+                    def count_hook(module, input, output, counter=counter):
+                        # every call costs FLOPs, but a module has its
+                        # parameters only once
+                        module.__params__ = 0
+                        counter.add_count_hook(module, input, output)
+
+                    handle = module.register_forward_hook(count_hook)
 
                     module.__flops_params_handle__ = handle
                 else:
-- 
2.43.0


From 115c806c88eb2bc3fbd444229886f94b2ce15c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 039/151] fix: convert the units of a module shared by several
 parents once

---
 .../estimators/counters/flops_params_counter.py            | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index ef31d67..ecce5f0 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -334,9 +334,10 @@ def accumulate_sub_module_flops_params(model, units=None):
                 sum += accumulate_flops(m)
             return sum
 
-    for module in model.modules():
-        _flops = accumulate_flops(module)
-        _params = accumulate_params(module)
+    # accumulate everything before any count is overwritten
+    counts = [(module, accumulate_flops(module), accumulate_params(module))
+              for module in model.modules()]
+    for module, _flops, _params in counts:
         module.__flops__ = _flops
         module.__params__ = _params
         if units is not None:
-- 
2.43.0


From 2753c812065c21312e9d02d742bf0c1476d2d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 040/151] fix: printing the costs of a model leaves nothing on
 it

---
 .../task_modules/estimators/counters/flops_params_counter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index ecce5f0..80d7cb3 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -293,10 +293,13 @@ def print_model_with_flops_params(model,
     def del_extra_repr(m):
         """Recover origin extra_repr method."""
         if hasattr(m, 'original_extra_repr'):
-            m.extra_repr = m.original_extra_repr
+            # uncover the method of the class
+            del m.extra_repr
             del m.original_extra_repr
         if hasattr(m, 'accumulate_flops'):
             del m.accumulate_flops
+        if hasattr(m, 'accumulate_params'):
+            del m.accumulate_params
 
     model.apply(add_extra_repr)
     print(model, file=ost, flush=flush)
-- 
2.43.0


From d9878ec91740cb64fb7a56695e0ef6594260d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 041/151] fix: a model can be pickled after its resources were
 estimated

---
 .../estimators/counters/flops_params_counter.py     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 80d7cb3..c813f77 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -141,6 +141,7 @@ def get_model_flops_params(model,
                         str(module.__params__) + params_suffix
 
     flops_params_model.stop_flops_params_count()
+    remove_flops_params_counting_methods(flops_params_model)
 
     if seperate_return:
         return spec_modules_resources
@@ -380,6 +381,18 @@ def add_flops_params_counting_methods(net_main_module):
     return net_main_module
 
 
+def remove_flops_params_counting_methods(net_main_module):
+    """Remove the methods added by `add_flops_params_counting_methods()`.
+
+    A module with bound methods in its attributes can not be unpickled.
+    """
+    for name in ('start_flops_params_count', 'stop_flops_params_count',
+                 'reset_flops_params_count',
+                 'compute_average_flops_params_cost'):
+        if name in net_main_module.__dict__:
+            delattr(net_main_module, name)
+
+
 def compute_average_flops_params_cost(self):
     """Compute average FLOPs and Params cost.
 
-- 
2.43.0


From e5824d1f06111a699982d25583bad4ef77ccc850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:56 +0000
Subject: [PATCH 042/151] fix: recorder and delivery managers exit in reversed
 order

---
 mmrazor/models/task_modules/delivery/delivery_manager.py | 3 ++-
 mmrazor/models/task_modules/recorder/recorder_manager.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/delivery_manager.py b/mmrazor/models/task_modules/delivery/delivery_manager.py
index 592d891..058cc6f 100644
--- a/mmrazor/models/task_modules/delivery/delivery_manager.py
+++ b/mmrazor/models/task_modules/delivery/delivery_manager.py
@@ -109,5 +109,6 @@ class DistillDeliveryManager:
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
         """Exit the context manager."""
-        for delivery in self.deliveries.values():
+        # several deliveries may wrap the same function: unwrap from the outside
+        for delivery in reversed(list(self.deliveries.values())):
             delivery.__exit__(exc_type, exc_value, traceback)
diff --git a/mmrazor/models/task_modules/recorder/recorder_manager.py b/mmrazor/models/task_modules/recorder/recorder_manager.py
index 30fbbb3..1facf99 100644
--- a/mmrazor/models/task_modules/recorder/recorder_manager.py
+++ b/mmrazor/models/task_modules/recorder/recorder_manager.py
@@ -112,5 +112,6 @@ class RecorderManager:
 
     def __exit__(self, exc_type, exc_value, traceback):
         """Exit the context manager."""
-        for recorder in self.recorders.values():
+        # several recorders may wrap the same function: unwrap from the outside
+        for recorder in reversed(list(self.recorders.values())):
             recorder.__exit__(exc_type, exc_value, traceback)
-- 
2.43.0


From b482bc3543b424e93a950a4a3690d002aece1e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:57 +0000
Subject: [PATCH 043/151] fix: several recorders or deliveries can wrap the
 same method

---
 .../delivery/method_outputs_delivery.py             | 13 +++++++++++--
 .../recorder/method_outputs_recorder.py             | 13 ++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
index fa9f6c4..dc553f7 100644
--- a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
+++ b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
@@ -125,7 +125,10 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Wrap the origin method.
         """
-        wrapped_method = self.deliver_wrapper(self.origin_method)
+        # The method may be wrapped by another recorder or delivery by now.
+        origin_method = getattr(self.imported_cls, self.method_name)
+        self.replaced_method = vars(self.imported_cls).get(self.method_name)
+        wrapped_method = self.deliver_wrapper(origin_method)
         setattr(self.imported_cls, self.method_name, wrapped_method)
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
@@ -133,7 +136,13 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Reset the origin method.
         """
-        setattr(self.imported_cls, self.method_name, self.origin_method)
+        if self.replaced_method is None:
+            # it is inherited
+            delattr(self.imported_cls, self.method_name)
+        else:
+            setattr(self.imported_cls, self.method_name, self.replaced_method)
+        # A wrapped method can not be pickled.
+        del self.replaced_method
 
     def deliver_wrapper(self, origin_method: Callable) -> Callable:
         """Wrap the specific method to make the intermediate results of the
diff --git a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
index 6d3fb65..48ca22f 100644
--- a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
+++ b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
@@ -148,7 +148,9 @@ class MethodOutputsRecorder(BaseRecorder):
         super().__enter__()
 
         imported_cls = self.imported_class
-        origin_method = self.origin_method
+        # The method may be wrapped by another recorder or delivery by now.
+        origin_method = getattr(imported_cls, self.method_name)
+        self.replaced_method = vars(imported_cls).get(self.method_name)
         # add record wrapper to origin method.
         record_method = self.method_record_wrapper(origin_method,
                                                    self.data_buffer)
@@ -161,7 +163,12 @@ class MethodOutputsRecorder(BaseRecorder):
         super().__exit__(exc_type, exc_value, traceback)
 
         imported_cls = self.imported_class
-        origin_method = self.origin_method
 
         # restore the origin method
-        setattr(imported_cls, self.method_name, origin_method)
+        if self.replaced_method is None:
+            # it is inherited
+            delattr(imported_cls, self.method_name)
+        else:
+            setattr(imported_cls, self.method_name, self.replaced_method)
+        # A wrapped method can not be pickled.
+        del self.replaced_method
-- 
2.43.0


From 311a18cfe732426535b2d721924c991f99de8500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 044/151] fix: the CRD loss is scaled by its weight

---
 mmrazor/models/losses/crd_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/crd_loss.py b/mmrazor/models/losses/crd_loss.py
index 4ca81aa..f99db84 100644
--- a/mmrazor/models/losses/crd_loss.py
+++ b/mmrazor/models/losses/crd_loss.py
@@ -62,7 +62,7 @@ class CRDLoss(nn.Module):
         s_loss = self.criterion_s_t(out_s)
         t_loss = self.criterion_s_t(out_t)
         loss = s_loss + t_loss
-        return loss
+        return self.loss_weight * loss
 
 
 class ContrastLoss(nn.Module):
-- 
2.43.0


From 49b8ac8dacc22a36539c35f22615e9233136d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 045/151] fix: the DKD loss obeys its reduction

---
 mmrazor/models/losses/decoupled_kd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/models/losses/decoupled_kd.py b/mmrazor/models/losses/decoupled_kd.py
index 2aeff6a..bd48104 100644
--- a/mmrazor/models/losses/decoupled_kd.py
+++ b/mmrazor/models/losses/decoupled_kd.py
@@ -105,8 +105,7 @@ class DKDLoss(nn.Module):
     ) -> torch.Tensor:
         """Calculate the KL Divergence."""
         kl_loss = F.kl_div(
-            preds_S, preds_T, size_average=False,
-            reduction=self.reduction) * self.tau**2
+            preds_S, preds_T, reduction=self.reduction) * self.tau**2
         return kl_loss
 
     def _cat_mask(
-- 
2.43.0


From f411a0666bd39d4314f593708e37071e8e7af343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 046/151] fix: the PKD loss resizes features that differ in
 width only

---
 mmrazor/models/losses/pkd_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/pkd_loss.py b/mmrazor/models/losses/pkd_loss.py
index febc05c..5254021 100644
--- a/mmrazor/models/losses/pkd_loss.py
+++ b/mmrazor/models/losses/pkd_loss.py
@@ -65,7 +65,7 @@ class PKDLoss(nn.Module):
 
         for pred_S, pred_T in zip(preds_S, preds_T):
             size_S, size_T = pred_S.shape[2:], pred_T.shape[2:]
-            if size_S[0] != size_T[0]:
+            if size_S != size_T:
                 if self.resize_stu:
                     pred_S = F.interpolate(pred_S, size_T, mode='bilinear')
                 else:
-- 
2.43.0


From 2105c331fd55d9636cd03e69f98ceca96c220b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 047/151] fix: distillation losses accept features in any
 memory layout

---
 mmrazor/models/losses/at_loss.py              | 2 +-
 mmrazor/models/losses/cwd.py                  | 7 ++++---
 mmrazor/models/losses/dafl_loss.py            | 2 +-
 mmrazor/models/losses/factor_transfer_loss.py | 2 +-
 mmrazor/models/losses/l2_loss.py              | 2 +-
 mmrazor/models/losses/relational_kd.py        | 8 ++++----
 6 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/mmrazor/models/losses/at_loss.py b/mmrazor/models/losses/at_loss.py
index 025ac67..8ab8d34 100644
--- a/mmrazor/models/losses/at_loss.py
+++ b/mmrazor/models/losses/at_loss.py
@@ -38,4 +38,4 @@ class ATLoss(nn.Module):
         Args:
             x (torch.Tensor): Input features.
         """
-        return F.normalize(x.pow(2).mean(1).view(x.size(0), -1))
+        return F.normalize(x.pow(2).mean(1).reshape(x.size(0), -1))
diff --git a/mmrazor/models/losses/cwd.py b/mmrazor/models/losses/cwd.py
index 3c8ca11..6232505 100644
--- a/mmrazor/models/losses/cwd.py
+++ b/mmrazor/models/losses/cwd.py
@@ -37,13 +37,14 @@ class ChannelWiseDivergence(nn.Module):
         assert preds_S.shape[-2:] == preds_T.shape[-2:]
         N, C, H, W = preds_S.shape
 
-        softmax_pred_T = F.softmax(preds_T.view(-1, W * H) / self.tau, dim=1)
+        softmax_pred_T = F.softmax(
+            preds_T.reshape(-1, W * H) / self.tau, dim=1)
 
         logsoftmax = torch.nn.LogSoftmax(dim=1)
         loss = torch.sum(softmax_pred_T *
-                         logsoftmax(preds_T.view(-1, W * H) / self.tau) -
+                         logsoftmax(preds_T.reshape(-1, W * H) / self.tau) -
                          softmax_pred_T *
-                         logsoftmax(preds_S.view(-1, W * H) / self.tau)) * (
+                         logsoftmax(preds_S.reshape(-1, W * H) / self.tau)) * (
                              self.tau**2)
 
         loss = self.loss_weight * loss / (C * N)
diff --git a/mmrazor/models/losses/dafl_loss.py b/mmrazor/models/losses/dafl_loss.py
index d6205fe..2f6e0ab 100644
--- a/mmrazor/models/losses/dafl_loss.py
+++ b/mmrazor/models/losses/dafl_loss.py
@@ -120,5 +120,5 @@ class ActivationLoss(nn.Module):
         Args:
             feat_T (torch.Tensor): The featuremap of teacher.
         """
-        feat_T = feat_T.view(feat_T.size(0), -1)
+        feat_T = feat_T.reshape(feat_T.size(0), -1)
         return self.norm_fn(feat_T)
diff --git a/mmrazor/models/losses/factor_transfer_loss.py b/mmrazor/models/losses/factor_transfer_loss.py
index bf49920..5290c46 100644
--- a/mmrazor/models/losses/factor_transfer_loss.py
+++ b/mmrazor/models/losses/factor_transfer_loss.py
@@ -35,4 +35,4 @@ class FTLoss(nn.Module):
 
     def factor(self, x: torch.Tensor) -> torch.Tensor:
         """compute factor."""
-        return F.normalize(x.view(x.size(0), -1))
+        return F.normalize(x.reshape(x.size(0), -1))
diff --git a/mmrazor/models/losses/l2_loss.py b/mmrazor/models/losses/l2_loss.py
index 5531312..f79ed56 100644
--- a/mmrazor/models/losses/l2_loss.py
+++ b/mmrazor/models/losses/l2_loss.py
@@ -71,5 +71,5 @@ class L2Loss(nn.Module):
             feature (torch.Tensor): The student model feature with
                 shape (N, C, H, W) or shape (N, C).
         """
-        feature = feature.view(feature.size(0), -1)
+        feature = feature.reshape(feature.size(0), -1)
         return feature / feature.norm(2, dim=1, keepdim=True) * self.mult
diff --git a/mmrazor/models/losses/relational_kd.py b/mmrazor/models/losses/relational_kd.py
index 1eae338..b9dc576 100644
--- a/mmrazor/models/losses/relational_kd.py
+++ b/mmrazor/models/losses/relational_kd.py
@@ -90,8 +90,8 @@ class DistanceWiseRKD(nn.Module):
         Return:
             torch.Tensor: The calculated loss value.
         """
-        preds_S = preds_S.view(preds_S.shape[0], -1)
-        preds_T = preds_T.view(preds_T.shape[0], -1)
+        preds_S = preds_S.reshape(preds_S.shape[0], -1)
+        preds_T = preds_T.reshape(preds_T.shape[0], -1)
         if self.with_l2_norm:
             preds_S = F.normalize(preds_S, p=2, dim=1)
             preds_T = F.normalize(preds_T, p=2, dim=1)
@@ -138,8 +138,8 @@ class AngleWiseRKD(nn.Module):
         Return:
             torch.Tensor: The calculated loss value.
         """
-        preds_S = preds_S.view(preds_S.shape[0], -1)
-        preds_T = preds_T.view(preds_T.shape[0], -1)
+        preds_S = preds_S.reshape(preds_S.shape[0], -1)
+        preds_T = preds_T.reshape(preds_T.shape[0], -1)
         if self.with_l2_norm:
             preds_S = F.normalize(preds_S, p=2, dim=-1)
             preds_T = F.normalize(preds_T, p=2, dim=-1)
-- 
2.43.0


From d6c1c392d67a5c0823e3c77b11ede2281999ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 048/151] fix: activations inside a module with an inplace
 attribute become out of place

---
 mmrazor/models/algorithms/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/base.py b/mmrazor/models/algorithms/base.py
index 5bb9839..d161d81 100644
--- a/mmrazor/models/algorithms/base.py
+++ b/mmrazor/models/algorithms/base.py
@@ -199,9 +199,8 @@ class BaseAlgorithm(BaseModel):
         if isinstance(architecture, nn.Module):
             if hasattr(eval(varstr), 'inplace'):
                 eval(varstr).inplace = False
-            else:
-                self.set_module_inplace_false(architecture._modules,
-                                              varstr + '._modules')
+            self.set_module_inplace_false(architecture._modules,
+                                          varstr + '._modules')
         elif isinstance(architecture, OrderedDict):
             for key, value in architecture.items():
                 self.set_module_inplace_false(value, varstr + f"['{key}']")
-- 
2.43.0


From 645ef951c646b08ae8ac93763e3a9bc7d9e66e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 049/151] fix: FpnTeacherDistill obeys calculate_student_loss
 and student_trainable

---
 .../configurable/fpn_teacher_distill.py        | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/distill/configurable/fpn_teacher_distill.py b/mmrazor/models/algorithms/distill/configurable/fpn_teacher_distill.py
index 4a70274..cfc2628 100644
--- a/mmrazor/models/algorithms/distill/configurable/fpn_teacher_distill.py
+++ b/mmrazor/models/algorithms/distill/configurable/fpn_teacher_distill.py
@@ -44,10 +44,20 @@ class FpnTeacherDistill(SingleTeacherDistill):
         # If the `override_data` of a delivery is True, the delivery will
         # override the origin data with the recorded data.
         self.distiller.set_deliveries_override(True)
-        with self.distiller.student_recorders, self.distiller.deliveries:
-            student_losses = self.student(
-                batch_inputs, data_samples, mode='loss')
-        losses.update(add_prefix(student_losses, 'student'))
+        # Original task loss will not be used during some pretraining process.
+        if self.calculate_student_loss:
+            with self.distiller.student_recorders, self.distiller.deliveries:
+                student_losses = self.student(
+                    batch_inputs, data_samples, mode='loss')
+            losses.update(add_prefix(student_losses, 'student'))
+        else:
+            with self.distiller.student_recorders, self.distiller.deliveries:
+                if self.student_trainable:
+                    _ = self.student(batch_inputs, data_samples, mode='loss')
+                else:
+                    with torch.no_grad():
+                        _ = self.student(
+                            batch_inputs, data_samples, mode='loss')
 
         if not self.distillation_stopped:
             # Automatically compute distill losses based on
-- 
2.43.0


From 8b3b1607a3ea563f742bc258f4cecef44a11459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 050/151] fix: the generator step leaves the gradients of the
 student alone

---
 .../configurable/datafree_distillation.py     | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
index 1aff807..1db4717 100644
--- a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
+++ b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
@@ -1,4 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+from contextlib import contextmanager
 from typing import Dict, List, Tuple
 
 import torch
@@ -78,6 +79,19 @@ class DataFreeDistillation(BaseAlgorithm):
         """Alias for ``architecture``."""
         return self.architecture
 
+    @contextmanager
+    def _keep_student_grads(self):
+        """The loss of the generator is propagated through the student, whose
+        own update must not see these gradients."""
+        grads = [(param, param.grad) for param in self.student.parameters()]
+        for param, _ in grads:
+            param.grad = None
+        try:
+            yield
+        finally:
+            for param, grad in grads:
+                param.grad = grad
+
     def train_step(self, data: Dict[str, List[dict]],
                    optim_wrapper: OptimWrapper) -> Dict[str, torch.Tensor]:
         """Train step for DataFreeDistillation.
@@ -166,7 +180,8 @@ class DataFreeDistillation(BaseAlgorithm):
             loss_generator = self.generator_distiller.compute_distill_losses()
 
         generator_loss, generator_loss_vars = self.parse_losses(loss_generator)
-        optimizer.update_params(generator_loss)
+        with self._keep_student_grads():
+            optimizer.update_params(generator_loss)
         log_vars = dict(add_prefix(generator_loss_vars, 'generator'))
 
         return generator_loss, log_vars
@@ -223,7 +238,8 @@ class DAFLDataFreeDistillation(DataFreeDistillation):
         distill_loss, distill_log_vars = self.parse_losses(loss_distill)
         log_vars.update(add_prefix(distill_log_vars, 'distill'))
 
-        optim_wrapper['generator'].update_params(generator_loss)
+        with self._keep_student_grads():
+            optim_wrapper['generator'].update_params(generator_loss)
         optim_wrapper['architecture'].update_params(distill_loss)
 
         return log_vars
-- 
2.43.0


From 8020bfdbd989488ba55d1b8eef98f1c59d13a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 051/151] fix: data-free distillation runs with a generator
 that is not wrapped

---
 .../distill/configurable/datafree_distillation.py     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
index 1db4717..c42f282 100644
--- a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
+++ b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
@@ -79,6 +79,11 @@ class DataFreeDistillation(BaseAlgorithm):
         """Alias for ``architecture``."""
         return self.architecture
 
+    @property
+    def latent_dim(self) -> int:
+        """The latent dim of the generator, which may be wrapped."""
+        return getattr(self.generator, 'module', self.generator).latent_dim
+
     @contextmanager
     def _keep_student_grads(self):
         """The loss of the generator is propagated through the student, whose
@@ -134,7 +139,7 @@ class DataFreeDistillation(BaseAlgorithm):
 
         for _ in range(self.student_iter):
             fakeimg_init = torch.randn(
-                (batch_size, self.generator.module.latent_dim))
+                (batch_size, self.latent_dim))
             fakeimg = self.generator(fakeimg_init, batch_size).detach()
 
             with optimizer.optim_context(self.student):
@@ -165,7 +170,7 @@ class DataFreeDistillation(BaseAlgorithm):
         """
         batch_size = len(data['inputs'])
         fakeimg_init = torch.randn(
-            (batch_size, self.generator.module.latent_dim))
+            (batch_size, self.latent_dim))
         fakeimg = self.generator(fakeimg_init, batch_size)
 
         with optimizer.optim_context(self.generator):
@@ -207,7 +212,7 @@ class DAFLDataFreeDistillation(DataFreeDistillation):
 
         # fakeimg initialization and revised by generator.
         fakeimg_init = torch.randn(
-            (batch_size, self.generator.module.latent_dim))
+            (batch_size, self.latent_dim))
         fakeimg = self.generator(fakeimg_init, batch_size)
         pseudo_data = self.data_preprocessor(data, True)
         pseudo_data_samples = pseudo_data['data_samples']
-- 
2.43.0


From 07bfd468d9719a6b648789c9035bb7820270613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:33 +0000
Subject: [PATCH 052/151] fix: the two updates of a DARTS step leave the
 gradients of each other alone

---
 mmrazor/models/algorithms/nas/darts.py | 29 ++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index b110f47..0157e78 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -1,6 +1,7 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
 import os
+from contextlib import contextmanager
 from typing import Dict, List, Optional, Union
 
 import torch
@@ -17,6 +18,20 @@ from ..base import BaseAlgorithm
 VALID_MUTATOR_TYPE = Union[NasMutator, Dict]
 
 
+@contextmanager
+def keep_grads(module: nn.Module):
+    """Leave the gradients of ``module`` as they are, whatever is propagated
+    through it within the context."""
+    grads = [(param, param.grad) for param in module.parameters()]
+    for param, _ in grads:
+        param.grad = None
+    try:
+        yield
+    finally:
+        for param, grad in grads:
+            param.grad = grad
+
+
 @MODELS.register_module()
 class Darts(BaseAlgorithm):
     """Implementation of `DARTS <https://arxiv.org/abs/1806.09055>`_
@@ -133,7 +148,8 @@ class Darts(BaseAlgorithm):
                         mode='loss')
                 mutator_losses, mutator_log_vars = self.parse_losses(
                     mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
+                with keep_grads(self.architecture):
+                    optim_wrapper['mutator'].update_params(mutator_losses)
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -145,7 +161,8 @@ class Darts(BaseAlgorithm):
                     supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_losses, supernet_log_vars = self.parse_losses(
                 supernet_loss)
-            optim_wrapper['architecture'].update_params(supernet_losses)
+            with keep_grads(self.mutator):
+                optim_wrapper['architecture'].update_params(supernet_losses)
             log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
@@ -374,7 +391,9 @@ class DartsDDP(MMDistributedDataParallel):
 
                     mutator_losses, mutator_log_vars = self.module.parse_losses(  # noqa: E501
                         mutator_loss)
-                    optim_wrapper['mutator'].update_params(mutator_losses)
+                    with keep_grads(self.module.architecture):
+                        optim_wrapper['mutator'].update_params(
+                            mutator_losses)
                     log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -389,7 +408,9 @@ class DartsDDP(MMDistributedDataParallel):
                 supernet_losses, supernet_log_vars = self.module.parse_losses(
                     supernet_loss)
 
-                optim_wrapper['architecture'].update_params(supernet_losses)
+                with keep_grads(self.module.mutator):
+                    optim_wrapper['architecture'].update_params(
+                        supernet_losses)
                 log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
-- 
2.43.0


From dd363b4210cdad5902d10f00d83dca96a8bfc06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:33 +0000
Subject: [PATCH 053/151] fix: the unrolled DARTS step takes the virtual step
 and its own gradients

---
 mmrazor/models/algorithms/nas/darts.py | 60 +++++++++++++++-----------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index 0157e78..1953a45 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -32,6 +32,16 @@ def keep_grads(module: nn.Module):
             param.grad = grad
 
 
+def pop_grads(module: nn.Module) -> List[torch.Tensor]:
+    """Take the gradients away from the parameters of ``module``."""
+    grads = []
+    for param in module.parameters():
+        grads.append(
+            torch.zeros_like(param) if param.grad is None else param.grad)
+        param.grad = None
+    return grads
+
+
 @MODELS.register_module()
 class Darts(BaseAlgorithm):
     """Implementation of `DARTS <https://arxiv.org/abs/1806.09055>`_
@@ -133,8 +143,9 @@ class Darts(BaseAlgorithm):
             if self.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    mutator_log_vars = self._unrolled_backward(
-                        mutator_data, supernet_data, optim_wrapper)
+                    with keep_grads(self.architecture):
+                        mutator_log_vars = self._unrolled_backward(
+                            mutator_data, supernet_data, optim_wrapper)
                 optim_wrapper['mutator'].step()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
@@ -202,8 +213,8 @@ class Darts(BaseAlgorithm):
         # can directly obtained. For more information, please refer to
         # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
         optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [param.grad for param in self.architecture.parameters()]
-        d_arch = [param.grad for param in self.mutator.parameters()]
+        d_model = pop_grads(self.architecture)
+        d_arch = pop_grads(self.mutator)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -232,12 +243,14 @@ class Darts(BaseAlgorithm):
         supernet_loss, _ = self.parse_losses(supernet_loss)
 
         optim_wrapper.backward(supernet_loss)
-        gradients = [param.grad for param in self.architecture.parameters()]
+        gradients = pop_grads(self.architecture)
+        pop_grads(self.mutator)
 
         with torch.no_grad():
             for w, g in zip(self.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w.sub_(lr * (momentum * m + g + weight_decay * w))
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -257,7 +270,7 @@ class Darts(BaseAlgorithm):
             eps = 0.01 / ||dw||
         """
         self._restore_weights(backup_params)
-        norm = torch.cat([w.view(-1) for w in dw]).norm()
+        norm = torch.cat([w.reshape(-1) for w in dw]).norm()
         eps = 0.01 / norm
         if norm < 1E-8:
             print(
@@ -279,8 +292,8 @@ class Darts(BaseAlgorithm):
             supernet_loss, _ = self.parse_losses(supernet_loss)
 
             optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.mutator.parameters()]
-            dalphas.append(dalpha)
+            dalphas.append(pop_grads(self.mutator))
+            pop_grads(self.architecture)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
         dalpha_pos, dalpha_neg = dalphas
@@ -374,8 +387,9 @@ class DartsDDP(MMDistributedDataParallel):
             if self.module.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    mutator_log_vars = self._unrolled_backward(
-                        mutator_data, supernet_data, optim_wrapper)
+                    with keep_grads(self.module.architecture):
+                        mutator_log_vars = self._unrolled_backward(
+                            mutator_data, supernet_data, optim_wrapper)
                 optim_wrapper['mutator'].step()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
@@ -453,10 +467,8 @@ class DartsDDP(MMDistributedDataParallel):
         # can directly obtained. For more information, please refer to
         # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
         optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
-        d_arch = [param.grad for param in self.module.mutator.parameters()]
+        d_model = pop_grads(self.module.architecture)
+        d_arch = pop_grads(self.module.mutator)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -485,14 +497,14 @@ class DartsDDP(MMDistributedDataParallel):
         supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
         optim_wrapper.backward(supernet_loss)
-        gradients = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
+        gradients = pop_grads(self.module.architecture)
+        pop_grads(self.module.mutator)
 
         with torch.no_grad():
             for w, g in zip(self.module.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w.sub_(lr * (momentum * m + g + weight_decay * w))
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -512,7 +524,7 @@ class DartsDDP(MMDistributedDataParallel):
             eps = 0.01 / ||dw||
         """
         self._restore_weights(backup_params)
-        norm = torch.cat([w.view(-1) for w in dw]).norm()
+        norm = torch.cat([w.reshape(-1) for w in dw]).norm()
         eps = 0.01 / norm
         if norm < 1E-8:
             print(
@@ -534,8 +546,8 @@ class DartsDDP(MMDistributedDataParallel):
             supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
             optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.module.mutator.parameters()]
-            dalphas.append(dalpha)
+            dalphas.append(pop_grads(self.module.mutator))
+            pop_grads(self.module.architecture)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
         dalpha_pos, dalpha_neg = dalphas
-- 
2.43.0


From d125d10641d5a66274c31e453d710df851452669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 054/151] fix: DSNAS rescales the gradients of the arch params
 before they are used

---
 mmrazor/models/algorithms/nas/dsnas.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index e5937ba..c82f321 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -159,10 +159,12 @@ class DSNAS(BaseAlgorithm):
                     mutator_loss = self.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
@@ -314,10 +316,12 @@ class DSNASDDP(MMDistributedDataParallel):
                     mutator_loss = self.module.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.module.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.module.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
-- 
2.43.0


From 18c1b276de25922b66205491c0be61661cd71816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 055/151] fix: the log-likelihood in DSNAS adds nothing to the
 gradients of the sampled weights

---
 mmrazor/models/algorithms/nas/dsnas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index c82f321..ccd138e 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -223,7 +223,7 @@ class DSNAS(BaseAlgorithm):
                     str(self.search_space_name_list.index(name))
                 probs = F.softmax(self.mutator.arch_params[k], -1)
                 arch_loss += torch.log(
-                    (module.arch_weights * probs).sum(-1)).sum()
+                    (module.arch_weights.detach() * probs).sum(-1)).sum()
 
                 # get the index of op with max arch weights.
                 index = (module.arch_weights == 1).nonzero().item()
-- 
2.43.0


From 0e928627e8367bc3c67252acda837ede08aee110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 056/151] fix: DSNAS uses the arch param of the search group of
 each mutable

---
 mmrazor/models/algorithms/nas/dsnas.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index ccd138e..3b23630 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -199,6 +199,13 @@ class DSNAS(BaseAlgorithm):
 
         return mutable_module_resources
 
+    def _get_group_name(self, mutable: BaseMutable) -> str:
+        """Get the name of the search group which a mutable belongs to."""
+        for name, mutables in self.mutator.search_groups.items():
+            if any(mutable is m for m in mutables):
+                return name
+        raise KeyError('The mutable does not belong to any search group.')
+
     def need_update_mutator(self, cur_epoch: int) -> bool:
         """Whether to update mutator."""
         if cur_epoch >= self.pretrain_epochs and \
@@ -219,8 +226,7 @@ class DSNAS(BaseAlgorithm):
         flops_loss = 0.0
         for name, module in self.architecture.named_modules():
             if isinstance(module, BaseMutable):
-                k = module.mutable_prefix + '_' + \
-                    str(self.search_space_name_list.index(name))
+                k = self._get_group_name(module)
                 probs = F.softmax(self.mutator.arch_params[k], -1)
                 arch_loss += torch.log(
                     (module.arch_weights.detach() * probs).sum(-1)).sum()
@@ -248,10 +254,9 @@ class DSNAS(BaseAlgorithm):
 
     def handle_grads(self):
         """Handle grads of arch params & arch weights."""
-        for name, module in self.architecture.named_modules():
+        for module in self.architecture.modules():
             if isinstance(module, BaseMutable):
-                k = module.mutable_prefix + '_' + \
-                    str(self.search_space_name_list.index(name))
+                k = self._get_group_name(module)
                 self.mutator.arch_params[k].grad.data.mul_(
                     module.arch_weights.grad.data.sum())
                 module.arch_weights.grad.zero_()
-- 
2.43.0


From f2d11fbb339d448d157d771e0f69bade3ee2bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 057/151] fix: DSNAS fixes the architecture also without a
 process group or after a resume

---
 mmrazor/models/algorithms/nas/dsnas.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index 3b23630..1d38083 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -4,9 +4,8 @@ import os
 from typing import Any, Dict, List, Optional, Union
 
 import torch
-import torch.distributed as dist
 import torch.nn.functional as F
-from mmengine.dist import get_dist_info
+from mmengine.dist import broadcast, get_dist_info
 from mmengine.logging import MessageHub
 from mmengine.model import BaseModel, MMDistributedDataParallel
 from mmengine.optim import OptimWrapper, OptimWrapperDict
@@ -130,10 +129,10 @@ class DSNAS(BaseAlgorithm):
             cur_epoch = self.message_hub.get_info('epoch')
             need_update_mutator = self.need_update_mutator(cur_epoch)
 
-            if cur_epoch == self.finetune_epochs and self.is_supernet:
+            if cur_epoch >= self.finetune_epochs and self.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    broadcast(v.data, src=0)
                 self._fix_archtecture()
                 self.is_supernet = False
 
@@ -291,11 +290,11 @@ class DSNASDDP(MMDistributedDataParallel):
             need_update_mutator = self.module.need_update_mutator(cur_epoch)
 
             # TODO process the input
-            if cur_epoch == self.module.finetune_epochs and \
+            if cur_epoch >= self.module.finetune_epochs and \
                self.module.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.module.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    broadcast(v.data, src=0)
                 self.module._fix_archtecture()
                 self.module.is_supernet = False
 
-- 
2.43.0


From 1162ebf0266bc574fcd23ec6024caa9c396d29f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 058/151] fix: a one-hot op keeps the index and the sampled
 choice of the op it was fixed to

---
 mmrazor/models/algorithms/nas/dsnas.py               |  3 ++-
 .../mutables/mutable_module/diff_mutable_module.py   | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index 1d38083..cb51e9a 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -232,7 +232,8 @@ class DSNAS(BaseAlgorithm):
 
                 # get the index of op with max arch weights.
                 index = (module.arch_weights == 1).nonzero().item()
-                _module_key = name + '._candidates.' + module.choices[index]
+                choice = module.sample_choice(module.arch_weights)
+                _module_key = name + '._candidates.' + choice
                 flops_loss += probs[index] * \
                     self.mutable_module_resources[_module_key]['flops']
 
diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index 70853b9..53d1abb 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -233,6 +233,8 @@ class DiffMutableOP(DiffMutableModule):
 
     def sample_choice(self, arch_param: Tensor) -> str:
         """Sample choice based on arch_parameters."""
+        if self.is_fixed:
+            return self._chosen[0]
         return self.choices[torch.argmax(arch_param).item()]
 
     def dump_chosen(self) -> DumpChosen:
@@ -314,23 +316,25 @@ class OneHotMutableOP(DiffMutableOP):
 
         if not self.is_fixed:
             self.arch_weights = self.sample_weights(arch_param, probs)
-            sorted_param = torch.topk(probs, 2)
+            self._unfixed_choices = self.choices
+            # a single candidate competes with no other one
+            sorted_param = torch.topk(F.pad(probs, (0, 1)), 2)
             reach_threshold = (
                 sorted_param[0][0] - sorted_param[0][1] >= self.fix_threshold)
             if reach_threshold:
                 self.fix_chosen(self.choices[sorted_param[1][0].item()])
 
         if self.is_fixed:
-            index = self.choices.index(self._chosen[0])
+            index = self._unfixed_choices.index(self._chosen[0])
             self.arch_weights.data.zero_()
             self.arch_weights.data[index].fill_(1.0)
         self.arch_weights.requires_grad_()
 
         # forward based on self.arch_weights
         outputs = list()
-        for prob, module in zip(self.arch_weights, self._candidates.values()):
+        for prob, choice in zip(self.arch_weights, self._unfixed_choices):
             if prob > 0.:
-                outputs.append(prob * module(x))
+                outputs.append(prob * self._candidates[choice](x))
 
         return sum(outputs)
 
-- 
2.43.0


From 5092a8c79310ce9fd196cad9d2c37001e4fc0473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 059/151] fix: DSNAS measures all the candidates, not only the
 sampled ones

---
 mmrazor/models/algorithms/nas/dsnas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index cb51e9a..80bca32 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -76,9 +76,10 @@ class DSNAS(BaseAlgorithm):
         # Before using it, you must do some preparation according to
         # the supernet.
         self.mutator.prepare_from_supernet(self.architecture)
+        # All the candidates are forwarded as long as there are no arch params.
+        self.mutable_module_resources = self._get_module_resources()
         self.mutator.prepare_arch_params()
 
-        self.mutable_module_resources = self._get_module_resources()
         self.search_space_name_list = list(self.mutator._name2mutable.keys())
 
         self.is_supernet = True
-- 
2.43.0


From 0a6c9db775d945b6a04853513c1d1b3e9f06f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:06 +0000
Subject: [PATCH 060/151] fix: IterMultiLoader restarts the exhausted
 dataloaders

---
 mmrazor/engine/runner/darts_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index 65e4611..3c3762c 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -171,7 +171,7 @@ class IterMultiLoader:
             for loader in self._dataloaders:
                 if hasattr(loader.sampler, 'set_epoch'):
                     loader.sampler.set_epoch(self._epoch)
-            self.iter_loader = [iter(loader) for loader in self._dataloaders]
+            self.iter_loaders = [iter(loader) for loader in self._dataloaders]
             data = tuple([next(loader) for loader in self.iter_loaders])
 
         return data
-- 
2.43.0


From 12b0e3ddfa9fffb01758f8d8472ad2d4dd8b846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:06 +0000
Subject: [PATCH 061/151] fix: the dataloader of the mutator is reshuffled in
 every epoch

---
 mmrazor/engine/runner/darts_loop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index 3c3762c..a1cd128 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -54,6 +54,11 @@ class DartsEpochBasedTrainLoop(EpochBasedTrainLoop):
         self.runner.call_hook('before_train_epoch')
         self.runner.model.train()
 
+        # `DistSamplerSeedHook` only knows the dataloader of the supernet
+        sampler = self.mutator_dataloader.sampler
+        if hasattr(sampler, 'set_epoch'):
+            sampler.set_epoch(self._epoch)
+
         for idx, data_batch in enumerate(EpochMultiLoader(self.multi_loaders)):
             self.run_iter(idx, data_batch)
 
-- 
2.43.0


From 46ab7d0e250d781bbb4a63dc53c04652000c588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:06 +0000
Subject: [PATCH 062/151] fix: BN calibration cuts the last batch to the
 remaining samples

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 3e0fe49..4474c05 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -76,11 +76,11 @@ class CalibrateBNMixin:
             f'Total sample number for calibration: {calibrate_sample_num}')
         remaining = calibrate_sample_num
         for data_batch in dataloader:
-            if len(data_batch) >= remaining:
-                data_batch = data_batch[:remaining]
             if isinstance(data_batch, torch.Tensor):
+                data_batch = data_batch[:remaining]
                 data_batch_nums = len(data_batch)
             else:
+                data_batch = {k: v[:remaining] for k, v in data_batch.items()}
                 data_batch_nums = len(data_batch['inputs'])
             if dist.is_initialized() and dist.is_available():
                 data_batch_tensor = torch.tensor(
-- 
2.43.0


From 5ac01e6d41222e4dc4b7468beca60fb7d3f8e346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:06 +0000
Subject: [PATCH 063/151] fix: BN calibration takes the statistics over all
 dimensions but the channels

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 4474c05..86708db 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -51,8 +51,9 @@ class CalibrateBNMixin:
             var_average_meter: AverageMeter = bn_module.__var_average_meter__
 
             real_input = input[0]
-            mean = real_input.mean((0, 2, 3))
-            var = real_input.var((0, 2, 3), unbiased=True)
+            dims = [0, *range(2, real_input.dim())]
+            mean = real_input.mean(dims)
+            var = real_input.var(dims, unbiased=True)
 
             mean_average_meter.update(mean, real_input.size(0))
             var_average_meter.update(var, real_input.size(0))
-- 
2.43.0


From 98c0a3a1e16ad8da4ce000ae1206c52b031a521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:06 +0000
Subject: [PATCH 064/151] fix: the validation loops return their metrics

---
 mmrazor/engine/runner/distill_val_loop.py   | 2 ++
 mmrazor/engine/runner/slimmable_val_loop.py | 1 +
 mmrazor/engine/runner/subnet_val_loop.py    | 1 +
 3 files changed, 4 insertions(+)

diff --git a/mmrazor/engine/runner/distill_val_loop.py b/mmrazor/engine/runner/distill_val_loop.py
index 0a86bbf..8e0b393 100644
--- a/mmrazor/engine/runner/distill_val_loop.py
+++ b/mmrazor/engine/runner/distill_val_loop.py
@@ -64,6 +64,7 @@ class SingleTeacherDistillValLoop(ValLoop):
 
         self.runner.call_hook('after_val_epoch', metrics=metrics)
         self.runner.call_hook('after_val')
+        return metrics
 
     @torch.no_grad()
     def run_iter_teacher(self, idx, data_batch: Sequence[dict]):
@@ -125,3 +126,4 @@ class SelfDistillValLoop(ValLoop):
 
         self.runner.call_hook('after_val_epoch', metrics=student_metrics)
         self.runner.call_hook('after_val')
+        return student_metrics
diff --git a/mmrazor/engine/runner/slimmable_val_loop.py b/mmrazor/engine/runner/slimmable_val_loop.py
index d3f5e2a..b6f9aa3 100644
--- a/mmrazor/engine/runner/slimmable_val_loop.py
+++ b/mmrazor/engine/runner/slimmable_val_loop.py
@@ -56,3 +56,4 @@ class SlimmableValLoop(ValLoop):
         self.runner.call_hook('after_val_epoch', metrics=all_metrics)
 
         self.runner.call_hook('after_val')
+        return all_metrics
diff --git a/mmrazor/engine/runner/subnet_val_loop.py b/mmrazor/engine/runner/subnet_val_loop.py
index d61e274..4385ca2 100644
--- a/mmrazor/engine/runner/subnet_val_loop.py
+++ b/mmrazor/engine/runner/subnet_val_loop.py
@@ -80,6 +80,7 @@ class SubnetValLoop(ValLoop, CalibrateBNMixin):
 
         self.runner.call_hook('after_val_epoch', metrics=all_metrics)
         self.runner.call_hook('after_val')
+        return all_metrics
 
     def _evaluate_once(self) -> Dict:
         """Evaluate a subnet once with BN re-calibration."""
-- 
2.43.0


From bfbc17e488a103bde32148873c4f2d4c65b25b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 065/151] fix: fused convolutions keep kernels that are not
 square

---
 .../dynamic_ops/mixins/dynamic_conv_mixins.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index 8887160..6f1d238 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -475,16 +475,16 @@ class FuseConvMixin(DynamicConvMixin):
 
         weight = self.weight[:, 0:mutable_in_channels, :, :]
         if self.groups == 1:
-            cout, cin, k, _ = weight.shape
+            cout, *kernel_shape = weight.shape
             fused_weight = torch.mm(choice,
-                                    weight.reshape(cout,
-                                                   -1)).reshape(-1, cin, k, k)
+                                    weight.reshape(cout, -1)).reshape(
+                                        -1, *kernel_shape)
         elif self.groups == self.in_channels == self.out_channels:
             # depth-wise conv
-            cout, cin, k, _ = weight.shape
+            cout, *kernel_shape = weight.shape
             fused_weight = torch.mm(choice,
-                                    weight.reshape(cout,
-                                                   -1)).reshape(-1, cin, k, k)
+                                    weight.reshape(cout, -1)).reshape(
+                                        -1, *kernel_shape)
         else:
             raise NotImplementedError(
                 'Current `ChannelMutator` only support pruning the depth-wise '
-- 
2.43.0


From d92657e5e0c7776139a338894308f8a9b8701c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 066/151] fix: DCFF scores a filter by its KL divergence to the
 other filters

---
 .../architectures/dynamic_ops/mixins/dynamic_conv_mixins.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index 6f1d238..821fe96 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -554,13 +554,13 @@ class FuseConvMixin(DynamicConvMixin):
         # KL = [c, 1, c] * ([c, 1 ,c] / [c, c, 1]).log()
         #    = [c, 1, c] * ([c, 1, c].log() - [c, c, 1].log())
         # only dim0 is required, dim1 and dim2 are pooled
-        # calc mean(dim=1) first
+        # calc the mean over the other channels first
 
         # avoid frequent NaN
         eps = 1e-7
         layeri_kl = layeri_softmaxp[:, None, :]
         log_p = layeri_kl * (layeri_kl + eps).log()
-        log_q = layeri_kl * torch.mean((layeri_softmaxp + eps).log(), dim=1)
+        log_q = layeri_kl * torch.mean((layeri_softmaxp + eps).log(), dim=0)
 
         layeri_kl = torch.mean((log_p - log_q), dim=2)
         del log_p, log_q
-- 
2.43.0


From 76576b284576e30cc64d7892d066f5a018662eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 067/151] fix: FuseConv2d refuses padding modes it does not
 implement

---
 mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
index 4604ccb..d9c525c 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
@@ -197,6 +197,7 @@ class FuseConv2d(nn.Conv2d, FuseConvMixin):
 
     def __init__(self, *args, **kwargs) -> None:
         super().__init__(*args, **kwargs)
+        assert self.padding_mode == 'zeros'
         self.mutable_attrs: Dict[str, BaseMutable] = nn.ModuleDict()
 
     @classmethod
-- 
2.43.0


From 43914caf5259770c16ef5ade5747a94f7cc90ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 068/151] fix: DCFF accepts every documented step_freq and
 prune_times

---
 mmrazor/models/algorithms/pruning/dcff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/pruning/dcff.py b/mmrazor/models/algorithms/pruning/dcff.py
index e89da50..7b0d6fe 100644
--- a/mmrazor/models/algorithms/pruning/dcff.py
+++ b/mmrazor/models/algorithms/pruning/dcff.py
@@ -82,7 +82,7 @@ class DCFF(ItePruneAlgorithm):
         Args:
             freq_time (Int): step_freq or prune_times.
         """
-        return (freq_time > 0) and (freq_time < self._max_iters)
+        return (freq_time > 0) and (freq_time <= self._max_iters)
 
     def _init_prune_config_manager(self):
         """init prune_config_manager and check step_freq & prune_times.
-- 
2.43.0


From 2c04f16858f04d7f247342add14514a75c7e1e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 069/151] fix: DMCP prunes to the expected channels in expected
 mode

---
 .../models/mutators/channel_mutator/dmcp_channel_mutator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py b/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
index de7bbc4..f544f88 100644
--- a/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
@@ -174,5 +174,9 @@ class DMCPChannelMutator(ChannelMutator[DMCPChannelUnit]):
                 # allow optional target_prune_ratio
                 continue
             choice = choices[str(group_id)]
-            module.current_choice = choice
+            if isinstance(choice, torch.Tensor):
+                # the expected channels are not an integer
+                module.current_choice = int(choice.round())
+            else:
+                module.current_choice = choice
             module.mutable_channel.activated_tensor_channels = choice
-- 
2.43.0


From 5a330477443a460ce3d58a4a5fe5aef4626de730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 070/151] fix: the log_l1 loss of DMCP compares FLOPs in the
 same unit

---
 mmrazor/models/algorithms/pruning/dmcp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 043cf9a..ae5d925 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -257,7 +257,8 @@ class DMCP(BaseAlgorithm):
                 the target FLOPs. And the type of this loss should be the same
                 as the expected FLOPs.
         """
-        flops_error = expected_flops - self.target_flops * 1e6
+        target_flops = self.target_flops * 1e6
+        flops_error = expected_flops - target_flops
 
         if self.flops_loss_type == 'l2':
             floss = torch.pow(flops_error, 2)
@@ -269,10 +270,10 @@ class DMCP(BaseAlgorithm):
             else:
                 ratio = 1.0
             # piecewise log function
-            lower_flops = self.target_flops * 0.95
+            lower_flops = target_flops * 0.95
             if expected_flops < lower_flops:
                 floss = torch.log(ratio * abs(flops_error))
-            elif (lower_flops <= expected_flops < self.target_flops):
+            elif (lower_flops <= expected_flops < target_flops):
                 floss = expected_flops * 0
             else:
                 floss = (
-- 
2.43.0


From 945c1a845d611822ac26f4d0bb9623165db936e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 071/151] fix: the arch step of DMCP leaves the gradients of
 the weights alone

---
 mmrazor/models/algorithms/pruning/dmcp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index ae5d925..702bc75 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -16,6 +16,7 @@ from mmrazor.models.utils import add_prefix
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ...task_modules.estimators import ResourceEstimator
 from ..base import BaseAlgorithm
+from ..nas.darts import keep_grads
 
 VALID_DISTILLER_TYPE = Union[ConfigurableDistiller, Dict, Any]
 
@@ -229,7 +230,8 @@ class DMCP(BaseAlgorithm):
         with optim_wrapper['mutator'].optim_context(self):
             arch_loss = self(inputs, data_samples, mode=mode)
         parsed_arch_loss, _ = self.parse_losses(arch_loss)
-        optim_wrapper['mutator'].update_params(parsed_arch_loss)
+        with keep_grads(self.architecture):
+            optim_wrapper['mutator'].update_params(parsed_arch_loss)
         arch_params_loss.update(add_prefix(arch_loss, 'arch'))
 
         # update flops_loss
-- 
2.43.0


From 4a4b2beb168292d50fecbc7b5e8073d77ca61dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 072/151] fix: the DMCP subnet hook exports without copying the
 trained model

---
 mmrazor/engine/hooks/dmcp_subnet_hook.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/hooks/dmcp_subnet_hook.py b/mmrazor/engine/hooks/dmcp_subnet_hook.py
index 5c3186f..13eab60 100644
--- a/mmrazor/engine/hooks/dmcp_subnet_hook.py
+++ b/mmrazor/engine/hooks/dmcp_subnet_hook.py
@@ -26,10 +26,11 @@ class DMCPSubnetHook(Hook):
 
     def _save_subnet(self, model, runner, save_path):
         """Save the sampled sub-network config."""
+        # the model may hold non-leaf tensors, which can not be copied
         fix_subnet, _ = export_fix_subnet(
             model,
             export_subnet_mode='mutator',
-            slice_weight=True,
+            slice_weight=False,
         )
         fix_subnet = json.dumps(fix_subnet, indent=4, separators=(',', ':'))
         with open(save_path, 'w') as file:
-- 
2.43.0


From 512d5dfdf1905c07ab5f3861eb34bacc9d0ced11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 073/151] fix: DumpSubnetHook keeps at most max_keep_subnets
 subnets

---
 mmrazor/engine/hooks/dump_subnet_hook.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/hooks/dump_subnet_hook.py b/mmrazor/engine/hooks/dump_subnet_hook.py
index 1aaeaba..e895fbc 100644
--- a/mmrazor/engine/hooks/dump_subnet_hook.py
+++ b/mmrazor/engine/hooks/dump_subnet_hook.py
@@ -2,7 +2,7 @@
 import copy
 import os.path as osp
 from pathlib import Path
-from typing import Optional, Sequence, Union
+from typing import List, Optional, Sequence, Union
 
 from mmengine.dist import master_only
 from mmengine.fileio import FileClient, dump
@@ -61,6 +61,7 @@ class DumpSubnetHook(Hook):
         self.save_last = save_last
         self.args = kwargs
         self.file_client_args = file_client_args
+        self.saved_subnets: List[str] = []
 
     def before_train(self, runner) -> None:
         """Finish all operations, related to checkpoint.
@@ -141,6 +142,13 @@ class DumpSubnetHook(Hook):
 
         dump(subnet_dict, filepath, file_format='yaml')
 
+        # remove the oldest subnets
+        if filepath in self.saved_subnets:
+            self.saved_subnets.remove(filepath)
+        self.saved_subnets.append(filepath)
+        while 0 < self.max_keep_subnets < len(self.saved_subnets):
+            file_client.remove(self.saved_subnets.pop(0))
+
     def after_train_iter(self,
                          runner,
                          batch_idx: int,
-- 
2.43.0


From 427b2c666b82f8385245ea47dd49c2d124df21d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 074/151] fix: a config with _return_architecture_ can be built
 repeatedly

---
 mmrazor/registry/registry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/registry/registry.py b/mmrazor/registry/registry.py
index 7f915ee..18dacc6 100644
--- a/mmrazor/registry/registry.py
+++ b/mmrazor/registry/registry.py
@@ -45,6 +45,7 @@ def build_razor_model_from_cfg(
 
     return_architecture = False
     if cfg.get('_return_architecture_', None):
+        cfg = cfg.copy()
         return_architecture = cfg.pop('_return_architecture_')
     razor_model = build_from_cfg(cfg, registry, default_args)
     if return_architecture:
-- 
2.43.0


From c31089cd570f61794536a27c13e71b69979441eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 075/151] fix: visualizing feature maps leaves the statistics
 of the model alone

---
 mmrazor/engine/hooks/visualization_hook.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/engine/hooks/visualization_hook.py b/mmrazor/engine/hooks/visualization_hook.py
index a52145b..675b365 100644
--- a/mmrazor/engine/hooks/visualization_hook.py
+++ b/mmrazor/engine/hooks/visualization_hook.py
@@ -163,8 +163,11 @@ class RazorVisualizationHook(Hook):
             data_['inputs'] = [data_['inputs']]
             data_['data_samples'] = [data_['data_samples']]
 
+            training = runner.model.training
+            runner.model.eval()
             with torch.no_grad(), self.recorder_manager:
                 runner.model.test_step(data_)
+            runner.model.train(training)
 
             if self.is_overlaid:
                 img_bytes = self.file_client.get(img_path)
-- 
2.43.0


From 161b926f368fbaab9d3b1cfc10307f9e344c6966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 076/151] fix: preparing a model for pruning keeps its weights

---
 .../mutables/mutable_channel/units/mutable_channel_unit.py     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
index 251214f..6707ff9 100644
--- a/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
@@ -229,6 +229,9 @@ class MutableChannelUnit(ChannelUnit):
                 if type(module) in dynamicop_map:
                     new_module = dynamicop_map[type(module)].convert_from(
                         module).to(get_module_device(module))
+                    new_module.load_state_dict(
+                        module.state_dict(), strict=False)
+                    new_module.train(module.training)
                     replace_op(model, channel.name, new_module)
                     channel.module = new_module
                 else:
-- 
2.43.0


From ab9b14be8a6a94bb09a171d7c47122b6c3ed157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 077/151] fix: tracing a model keeps its norms

---
 .../task_modules/tracer/backward_tracer.py    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/backward_tracer.py b/mmrazor/models/task_modules/tracer/backward_tracer.py
index f87c760..ebe4693 100644
--- a/mmrazor/models/task_modules/tracer/backward_tracer.py
+++ b/mmrazor/models/task_modules/tracer/backward_tracer.py
@@ -167,12 +167,20 @@ class BackwardTracer:
         return share_modules
 
     @staticmethod
-    def _reset_norm_running_stats(model):
+    def _get_norm_running_stats(model):
+        """Copy the running statistics of all the norms."""
+        return {
+            module: [buffer.clone() for buffer in module.buffers()]
+            for module in model.modules() if isinstance(module, _NormBase)
+        }
+
+    @staticmethod
+    def _reset_norm_running_stats(running_stats):
         """As we calculate the pseudo loss during tracing, we need to reset
-        states of parameters."""
-        for module in model.modules():
-            if isinstance(module, _NormBase):
-                module.reset_parameters()
+        the running statistics to those before."""
+        for module, buffers in running_stats.items():
+            for buffer, value in zip(module.buffers(), buffers):
+                buffer.copy_(value)
 
     def trace(self, model):
         """Trace trace the architecture topology of the input model."""
@@ -184,6 +192,7 @@ class BackwardTracer:
 
         self._register_share_module_hook(model)
 
+        running_stats = self._get_norm_running_stats(model)
         pseudo_loss = self.loss_calculator(model)
 
         share_modules = self._find_share_modules(model)
@@ -196,6 +205,6 @@ class BackwardTracer:
         self.backward_trace(pseudo_loss.grad_fn, module2name, param2module,
                             Path(), module_path_list, visited, share_modules)
 
-        self._reset_norm_running_stats(model)
+        self._reset_norm_running_stats(running_stats)
 
         return module_path_list
-- 
2.43.0


From cf9b3b2d2c82ae86f7fab77a8eaa4d522247cd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 078/151] fix: SqueezeMeanPoolingWithDropout returns its output
 for a tensor in evaluation

---
 .../models/architectures/necks/squeezemean_with_dropout.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/architectures/necks/squeezemean_with_dropout.py b/mmrazor/models/architectures/necks/squeezemean_with_dropout.py
index eca3447..738f82e 100644
--- a/mmrazor/models/architectures/necks/squeezemean_with_dropout.py
+++ b/mmrazor/models/architectures/necks/squeezemean_with_dropout.py
@@ -49,9 +49,9 @@ class SqueezeMeanPoolingWithDropout(BaseModule):
             if drop_ratio > 0 and self.training:
                 outs = tuple([F.dropout(x, p=drop_ratio) for x in outs])
         elif isinstance(inputs, torch.Tensor):
-            inputs = self.dimension_reduction(inputs)
+            outs = self.dimension_reduction(inputs)  # type:ignore
             if drop_ratio > 0 and self.training:
-                outs = F.dropout(inputs, p=drop_ratio)  # type:ignore
+                outs = F.dropout(outs, p=drop_ratio)  # type:ignore
         else:
             raise TypeError('neck inputs should be tuple or torch.tensor')
         return outs
-- 
2.43.0


From 8b9594a414da58fddbe3d5fe736df306d87c9f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 079/151] fix: the norm of DartsDilConv has the channels of its
 input

---
 mmrazor/models/architectures/ops/darts_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/ops/darts_series.py b/mmrazor/models/architectures/ops/darts_series.py
index 71368f5..bfede57 100644
--- a/mmrazor/models/architectures/ops/darts_series.py
+++ b/mmrazor/models/architectures/ops/darts_series.py
@@ -64,7 +64,7 @@ class DartsDilConv(BaseOP):
                 bias=False),
             nn.Conv2d(
                 self.in_channels, self.out_channels, 1, stride=1, bias=False),
-            build_norm_layer(self.norm_cfg, self.in_channels)[1])
+            build_norm_layer(self.norm_cfg, self.out_channels)[1])
 
         self.drop_path = DropPath() if use_drop_path else None
 
-- 
2.43.0


From 4d50f9efadae2fb9d927ecd2fc52cbb3f514cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 080/151] fix: the SE layer of DepthwiseSeparableConv has the
 channels of its input

---
 mmrazor/models/architectures/ops/efficientnet_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/ops/efficientnet_series.py b/mmrazor/models/architectures/ops/efficientnet_series.py
index ab78caa..52ce3bc 100644
--- a/mmrazor/models/architectures/ops/efficientnet_series.py
+++ b/mmrazor/models/architectures/ops/efficientnet_series.py
@@ -142,7 +142,7 @@ class DepthwiseSeparableConv(BaseOP):
         )
 
         # Squeeze-and-excitation
-        self.se = SELayer(out_channels, **
+        self.se = SELayer(in_channels, **
                           se_cfg) if self.se_cfg else nn.Identity()
 
         self.conv_pw = ConvModule(
-- 
2.43.0


From 7c1723098f9c061178cdb904f603f4631a00c9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 081/151] fix: ConvBnAct applies its SE layer

---
 mmrazor/models/architectures/ops/efficientnet_series.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/models/architectures/ops/efficientnet_series.py b/mmrazor/models/architectures/ops/efficientnet_series.py
index 52ce3bc..e75e1de 100644
--- a/mmrazor/models/architectures/ops/efficientnet_series.py
+++ b/mmrazor/models/architectures/ops/efficientnet_series.py
@@ -71,6 +71,8 @@ class ConvBnAct(BaseOP):
         """Forward function."""
         shortcut = x
         x = self.convModule(x)
+        if self.with_se:
+            x = self.se(x)
         if self.has_residual:
             x += shortcut
         return x
-- 
2.43.0


From fc5637527074a177f8dfe3f4d5b14657e80e1c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 082/151] fix: WideResNet can freeze stages and norms and use
 any norm layer

---
 .../architectures/backbones/wideresnet.py      | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/architectures/backbones/wideresnet.py b/mmrazor/models/architectures/backbones/wideresnet.py
index 5350d8f..6d634b9 100644
--- a/mmrazor/models/architectures/backbones/wideresnet.py
+++ b/mmrazor/models/architectures/backbones/wideresnet.py
@@ -10,6 +10,7 @@ import torch.nn.functional as F
 from mmcv.cnn import build_conv_layer, build_norm_layer
 from mmengine.model import BaseModule
 from mmengine.model.weight_init import constant_init
+from torch.nn.modules.batchnorm import _BatchNorm
 
 from mmrazor.registry import MODELS
 
@@ -107,9 +108,9 @@ class BasicBlock(nn.Module):
             torch.Tensor: output.
         """
 
-        identity = self.relu1(self.bn1(x))
+        identity = self.relu1(self.norm1(x))
         out = self.conv1(identity)
-        out = self.bn2(out)
+        out = self.norm2(out)
         out = self.relu2(out)
         if self.droprate > 0:
             out = F.dropout(out, p=self.droprate, training=self.training)
@@ -340,8 +341,6 @@ class WideResNet(BaseModule):
             self.add_module(layer_name, res_layer)
             self.res_layers.append(layer_name)
 
-        self._freeze_stages()
-
         self.feat_dim = res_layer[-1].out_channels
 
         self.norm1_name, norm1 = build_norm_layer(
@@ -349,6 +348,8 @@ class WideResNet(BaseModule):
         self.add_module(self.norm1_name, norm1)
         self.relu = nn.ReLU(inplace=True)
 
+        self._freeze_stages()
+
     @property
     def norm1(self):
         return getattr(self, self.norm1_name)
@@ -401,3 +402,12 @@ class WideResNet(BaseModule):
         x = self.norm1(x)
         x = self.relu(x)
         return tuple([x])
+
+    def train(self, mode=True):
+        super(WideResNet, self).train(mode)
+        self._freeze_stages()
+        if mode and self.norm_eval:
+            for m in self.modules():
+                if isinstance(m, _BatchNorm):
+                    m.eval()
+        return self
-- 
2.43.0


From 550795892cdd15d8132212e3974df26e842cb209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 083/151] fix: AttentiveMobileNetV3 leaves the caller's
 act_cfg_list alone

---
 .../models/architectures/backbones/searchable_mobilenet_v3.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py b/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
index b5fe373..d1c9986 100644
--- a/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
+++ b/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
@@ -110,7 +110,7 @@ class AttentiveMobileNetV3(BaseBackbone):
         self.fine_grained_mode = fine_grained_mode
         self.with_attentive_shortcut = with_attentive_shortcut
 
-        self.act_cfg_list = act_cfg_list if act_cfg_list \
+        self.act_cfg_list = list(act_cfg_list) if act_cfg_list \
             else ['Swish'] * 9
         self.stride_list = stride_list if stride_list \
             else [1, 2, 2, 2, 1, 2, 1]
-- 
2.43.0


From 586459ace5606cdf363812e7a26cc660951080df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 084/151] fix: DynamicPatchEmbed keeps the conv settings, bias
 and norm of its PatchEmbed

---
 .../dynamic_ops/bricks/dynamic_embed.py       | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
index f255d24..2ad81ba 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
@@ -101,19 +101,31 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
     def to_static_op(self: PatchEmbed) -> nn.Module:
         """Convert dynamic PatchEmbed to static PatchEmbed."""
         self.check_if_mutables_fixed()
-        assert self.mutable_embed_dims is not None
 
         weight, bias = self._get_dynamic_params()
         static_patch_embed = self.static_op_factory(
             img_size=self.img_size,
-            in_channels=3,
-            embed_dims=self.mutable_embed_dims.activated_channels)
+            in_channels=self.projection.in_channels,
+            embed_dims=weight.size(0),
+            conv_cfg=self._get_conv_cfg(self.projection))
 
         static_patch_embed.projection.weight = nn.Parameter(weight.clone())
-        static_patch_embed.projection.bias = nn.Parameter(bias.clone())
+        if bias is not None:
+            static_patch_embed.projection.bias = nn.Parameter(bias.clone())
+        static_patch_embed.norm = self.norm
 
         return static_patch_embed
 
+    @staticmethod
+    def _get_conv_cfg(conv: nn.Conv2d) -> Dict:
+        """Get the config of the projection."""
+        return dict(
+            kernel_size=conv.kernel_size,
+            stride=conv.stride,
+            padding=conv.padding,
+            dilation=conv.dilation,
+            bias=conv.bias is not None)
+
     @property
     def static_op_factory(self):
         """Corresponding Pytorch OP."""
@@ -125,10 +137,10 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
 
         dynamic_patch_embed = cls(
             img_size=module.img_size,
-            in_channels=3,
+            in_channels=module.projection.in_channels,
             embed_dims=module.embed_dims,
             norm_cfg=None,
-            conv_cfg=None,
+            conv_cfg=cls._get_conv_cfg(module.projection),
             init_cfg=None)
 
         # TODO mutable_attr should be inherited from its `__base__` class
@@ -144,7 +156,7 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
             x,
             weight,
             bias,
-            stride=16,
+            stride=self.projection.stride,
             padding=self.projection.padding,
             dilation=self.projection.dilation).flatten(2).transpose(1, 2)
 
-- 
2.43.0


From 453509c95ff3cd9d12b483a9afeff243e7b42716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 085/151] fix: AutoformerBackbone honours patch_size and
 norm_cfg

---
 .../architectures/backbones/searchable_autoformer.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/architectures/backbones/searchable_autoformer.py b/mmrazor/models/architectures/backbones/searchable_autoformer.py
index 28bd85d..8f8b69f 100644
--- a/mmrazor/models/architectures/backbones/searchable_autoformer.py
+++ b/mmrazor/models/architectures/backbones/searchable_autoformer.py
@@ -225,6 +225,7 @@ class AutoformerBackbone(BaseBackbone):
         self.drop_rate = drop_rate
         self.use_final_norm = use_final_norm
         self.act_cfg = act_cfg
+        self.norm_cfg = norm_cfg
 
         # adapt mutable settings
         self.mlp_ratio_range: List = self.arch_setting['mlp_ratios']
@@ -265,7 +266,8 @@ class AutoformerBackbone(BaseBackbone):
         self.patch_embed = DynamicPatchEmbed(
             img_size=self.img_size,
             in_channels=self.in_channels,
-            embed_dims=self.mutable_embed_dims.num_channels)
+            embed_dims=self.mutable_embed_dims.num_channels,
+            conv_cfg=dict(kernel_size=patch_size, stride=patch_size))
 
         # num of patches
         self.patch_resolution = [
@@ -318,7 +320,8 @@ class AutoformerBackbone(BaseBackbone):
                 proj_drop_rate=self.drop_rate,
                 out_drop_rate=self.dpr[i],
                 qkv_bias=self.qkv_bias,
-                act_cfg=self.act_cfg)
+                act_cfg=self.act_cfg,
+                norm_cfg=self.norm_cfg)
             layers.append(layer)
         return DynamicSequential(*layers)
 
-- 
2.43.0


From 274bc25eeb26d1abbd8b931ffe567822abb26c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 086/151] fix: input resizers accept every interpolation type
 and a missing size

---
 .../architectures/dynamic_ops/bricks/dynamic_function.py     | 2 +-
 mmrazor/models/architectures/ops/function.py                 | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
index 6e5761e..5bb0803 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
@@ -32,7 +32,7 @@ class DynamicInputResizer(InputResizer, DynamicResizeMixin):
 
     def forward(self,
                 x: torch.Tensor,
-                size=Optional[Tuple[int, int]]) -> torch.Tensor:
+                size: Optional[Tuple[int, int]] = None) -> torch.Tensor:
         self._size = self.get_dynamic_shape()
 
         if not self._size:
diff --git a/mmrazor/models/architectures/ops/function.py b/mmrazor/models/architectures/ops/function.py
index 3509e7d..901257c 100644
--- a/mmrazor/models/architectures/ops/function.py
+++ b/mmrazor/models/architectures/ops/function.py
@@ -32,10 +32,13 @@ class InputResizer(Module):
                 x: torch.Tensor,
                 size: Optional[Tuple[int, int]] = None) -> torch.Tensor:
         size = size if size is not None else self._size
+        # ``align_corners`` only applies to the linear and cubic modes
+        align_corners = self._align_corners if self._interpolation_type in (
+            'linear', 'bilinear', 'bicubic', 'trilinear') else None
 
         return functional.interpolate(
             input=x,
             size=size,
             mode=self._interpolation_type,
             scale_factor=self._scale_factor,
-            align_corners=self._align_corners)
+            align_corners=align_corners)
-- 
2.43.0


From 72a80249d5009783564f97155f070818b53537ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 087/151] fix: building a DARTS node leaves the caller's
 configs alone

---
 mmrazor/models/architectures/backbones/darts_backbone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/models/architectures/backbones/darts_backbone.py b/mmrazor/models/architectures/backbones/darts_backbone.py
index a2c4f06..2af3b9a 100644
--- a/mmrazor/models/architectures/backbones/darts_backbone.py
+++ b/mmrazor/models/architectures/backbones/darts_backbone.py
@@ -134,10 +134,12 @@ class Node(nn.Module):
                 stride=stride,
             )
 
+            mutable_cfg = copy.deepcopy(mutable_cfg)
             mutable_cfg.update(module_kwargs=module_kwargs)
             mutable_cfg.update(alias=edge_id)
             edges.add_module(edge_id, MODELS.build(mutable_cfg))
 
+        route_cfg = copy.deepcopy(route_cfg)
         route_cfg.update(alias=node_id)
         route_cfg.update(edges=edges)
         self.route = MODELS.build(route_cfg)
-- 
2.43.0


From 987a0ed71dd09dbce3c3e24ecb78e5eff4d81fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 088/151] fix: a fresh DynamicSequential runs and exports all
 its modules

---
 .../architectures/dynamic_ops/bricks/dynamic_container.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
index 3696fe3..44e8dc0 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
@@ -27,7 +27,7 @@ class DynamicSequential(Sequential, DynamicMixin):
     def mutable_depth(self):
         """Mutable depth."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['depth']
+        return self.get_mutable_attr('depth')
 
     def register_mutable_attr(self: Sequential, attr: str,
                               mutable: BaseMutable):
@@ -79,9 +79,9 @@ class DynamicSequential(Sequential, DynamicMixin):
     def forward(self, x: Tensor) -> Tensor:
         """Forward of Dynamic Sequential."""
         if self.mutable_depth is None:
-            return self(x)
-
-        current_depth = self.get_current_choice(self.mutable_depth)
+            current_depth = self.pure_module_nums
+        else:
+            current_depth = self.get_current_choice(self.mutable_depth)
         passed_module_nums = 0
         for module in self.pure_modules():
             passed_module_nums += 1
-- 
2.43.0


From ad470d674b35494e4cdde3134d2831c2b4a2b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 089/151] fix: a fresh DynamicMultiheadAttention behaves like
 MultiheadAttention

---
 .../bricks/dynamic_multi_head_attention.py    | 40 ++++++++++++++-----
 .../bricks/dynamic_relative_position.py       |  8 ++--
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 1fce93d..4d48b79 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -60,19 +60,19 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
     def mutable_num_heads(self):
         """Mutable number of heads."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['num_heads']
+        return self.get_mutable_attr('num_heads')
 
     @property
     def mutable_embed_dims(self):
         """Mutable embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['embed_dims']
+        return self.get_mutable_attr('embed_dims')
 
     @property
     def mutable_q_embed_dims(self):
         """Mutable intermediate embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['q_embed_dims']
+        return self.get_mutable_attr('q_embed_dims')
 
     def register_mutable_attr(self, attr: str, mutable: BaseMutable):
         """Register attribute of mutable."""
@@ -145,7 +145,7 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         if self.mutable_q_embed_dims is not None:
             in_features = self.mutable_q_embed_dims.activated_channels
         else:
-            in_features = self.embed_dims
+            in_features = self.q_embed_dims
 
         if self.mutable_embed_dims is not None:
             out_features = self.mutable_embed_dims.activated_channels
@@ -177,19 +177,28 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         if self.mutable_q_embed_dims is not None:
             out_features = self.mutable_q_embed_dims.activated_channels
         else:
-            out_features = self.mutable_q_embed_dims
+            out_features = self.q_embed_dims
 
         weight = w.weight[:out_features, :in_features]
         bias = w.bias[:out_features] if w.bias is not None else None
 
         return weight, bias
 
+    def _get_num_heads(self) -> int:
+        """Get the current number of heads."""
+        if self.mutable_num_heads is not None:
+            return self.mutable_num_heads.current_choice
+        return self.num_heads
+
     def to_static_op(self) -> MultiheadAttention:
         """Convert dynamic MultiheadAttention to static one."""
         self.check_if_mutables_fixed()
 
-        embed_dims = self.mutable_embed_dims.activated_channels
-        num_heads = self.mutable_num_heads.current_choice
+        if self.mutable_embed_dims is not None:
+            embed_dims = self.mutable_embed_dims.activated_channels
+        else:
+            embed_dims = self.embed_dims
+        num_heads = self._get_num_heads()
 
         q_w, q_b = self._get_dynamic_qkv_params(self.w_qs)
         k_w, k_b = self._get_dynamic_qkv_params(self.w_ks)
@@ -233,7 +242,15 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         dynamic_mha = cls(
             embed_dims=module.embed_dims,
             num_heads=module.num_heads,
-        )
+            input_dims=module.input_dims,
+            attn_drop_rate=module.attn_drop.p,
+            proj_drop_rate=module.proj_drop.p,
+            out_drop_rate=module.out_drop.p,
+            relative_position=module.relative_position,
+            max_relative_position=module.max_relative_position,
+            qkv_bias=module.w_qs.bias is not None,
+            qk_scale=module.scale,
+            proj_bias=module.proj.bias is not None)
         return dynamic_mha
 
     def static_op_factory(self):
@@ -247,8 +264,11 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         k_w, k_b = self._get_dynamic_qkv_params(self.w_ks)
         v_w, v_b = self._get_dynamic_qkv_params(self.w_vs)
 
-        q_embed_dims = self.mutable_q_embed_dims.activated_channels
-        num_heads = self.mutable_num_heads.current_choice
+        if self.mutable_q_embed_dims is not None:
+            q_embed_dims = self.mutable_q_embed_dims.activated_channels
+        else:
+            q_embed_dims = self.q_embed_dims
+        num_heads = self._get_num_heads()
 
         q = F.linear(x, q_w, q_b).view(B, N, num_heads,
                                        q_embed_dims // num_heads)
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index e66456e..8492eb3 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -43,7 +43,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
     def mutable_head_dims(self):
         """Mutable head dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['head_dims']
+        return self.get_mutable_attr('head_dims')
 
     def register_mutable_attr(self, attr: str, mutable: BaseMutable):
         """Register attribute of mutable."""
@@ -78,9 +78,11 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
     def to_static_op(self) -> nn.Module:
         """Convert dynamic RelativePosition2D to static One."""
         self.check_if_mutables_fixed()
-        assert self.mutable_head_dims is not None
 
-        self.current_head_dim = self.mutable_head_dims.activated_channels
+        if self.mutable_head_dims is None:
+            self.current_head_dim = self.head_dims
+        else:
+            self.current_head_dim = self.mutable_head_dims.activated_channels
         static_relative_position = self.static_op_factory(
             self.current_head_dim, self.max_relative_position)
         static_relative_position.embeddings_table_v = \
-- 
2.43.0


From 64053e4b8b4b615505b517e75f943277c1312596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 090/151] fix: DynamicMultiheadAttention applies and exports
 its output dropout

---
 .../dynamic_ops/bricks/dynamic_multi_head_attention.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 4d48b79..cb05e5e 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -212,6 +212,7 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
             input_dims=None,
             attn_drop_rate=self.attn_drop.p,
             proj_drop_rate=self.proj_drop.p,
+            out_drop_rate=self.out_drop.p,
             relative_position=self.relative_position,
             max_relative_position=self.max_relative_position,
             qkv_bias=q_b is not None,
@@ -300,5 +301,5 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         # proj
         weight, bias = self._get_dynamic_proj_params(self.proj)
         x = F.linear(x, weight, bias)
-        x = self.proj_drop(x)
+        x = self.out_drop(self.proj_drop(x))
         return x
-- 
2.43.0


From a4bb3cdb231a236d5fe156592525f880e3178991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 091/151] fix: a fresh DynamicLayerNorm behaves like LayerNorm

---
 .../models/architectures/dynamic_ops/bricks/dynamic_norm.py  | 5 +++--
 .../dynamic_ops/mixins/dynamic_layernorm_mixins.py           | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
index eb5dd3b..06d1267 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
@@ -247,8 +247,9 @@ class DynamicLayerNorm(LayerNorm, DynamicLayerNormMixin):
         self._check_input_dim(input)
 
         weight, bias = self.get_dynamic_params()
-        self.normalized_shape = (
-            self.mutable_num_features.activated_channels, )
+        if self.mutable_num_features is not None:
+            self.normalized_shape = (
+                self.mutable_num_features.activated_channels, )
 
         return F.layer_norm(input, self.normalized_shape, weight, bias,
                             self.eps)
diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
index 785be99..90b022b 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
@@ -29,7 +29,7 @@ class DynamicLayerNormMixin(DynamicChannelMixin):
     def mutable_num_features(self):
         """Mutable number of features."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['num_features']
+        return self.get_mutable_attr('num_features')
 
     def register_mutable_attr(self, attr, mutable):
         """Register attribute of mutable."""
-- 
2.43.0


From e050685330ed88d1226de78470f7e651a210270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 092/151] fix: SwitchableBatchNorm2d without weights and
 statistics runs

---
 mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
index 06d1267..a650686 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
@@ -187,6 +187,8 @@ class SwitchableBatchNorm2d(DynamicBatchNorm2d):
     def activated_channel_num(self):
         """The number of activated channels."""
         mask = self._get_num_features_mask()
+        if mask is None:
+            return self.num_features
         choice_num = (mask == 1).sum().item()
         return choice_num
 
-- 
2.43.0


From 07715a5b81c43e5a37dfc843dd1f72c6af90561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 093/151] fix: an exported norm keeps the number of batches it
 has tracked

---
 .../models/architectures/dynamic_ops/mixins/dynamic_mixins.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
index 2a610e5..383c1ba 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
@@ -276,6 +276,8 @@ class DynamicBatchNormMixin(DynamicChannelMixin):
             static_bn.running_var.copy_(running_var)
             static_bn.running_var = static_bn.running_var.to(
                 running_var.device)
+        if self.num_batches_tracked is not None:
+            static_bn.num_batches_tracked.copy_(self.num_batches_tracked)
         if weight is not None:
             static_bn.weight = nn.Parameter(weight)
         if bias is not None:
-- 
2.43.0


From 9bc783f2c9cb51c2e875a5412ca4ed210115100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 094/151] fix: an exported norm keeps the dtype of its
 statistics

---
 .../architectures/dynamic_ops/mixins/dynamic_mixins.py    | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
index 383c1ba..0e386af 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
@@ -269,13 +269,9 @@ class DynamicBatchNormMixin(DynamicChannelMixin):
             track_running_stats=self.track_running_stats)
 
         if running_mean is not None:
-            static_bn.running_mean.copy_(running_mean)
-            static_bn.running_mean = static_bn.running_mean.to(
-                running_mean.device)
+            static_bn.running_mean = running_mean.detach().clone()
         if running_var is not None:
-            static_bn.running_var.copy_(running_var)
-            static_bn.running_var = static_bn.running_var.to(
-                running_var.device)
+            static_bn.running_var = running_var.detach().clone()
         if self.num_batches_tracked is not None:
             static_bn.num_batches_tracked.copy_(self.num_batches_tracked)
         if weight is not None:
-- 
2.43.0


From f07e04105004ff0af6493ec800d0eda795a295f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 095/151] fix: AttentiveMobileNetV3 exports the width of a
 single-block last stage

---
 .../models/architectures/backbones/searchable_mobilenet_v3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py b/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
index d1c9986..f144fdc 100644
--- a/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
+++ b/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
@@ -308,6 +308,10 @@ class AttentiveMobileNetV3(BaseBackbone):
             num_channels=self.out_channels,
             candidate_choices=self.last_out_channels_list)
 
+        # keep the width of the last stage among the exported mutables, even
+        # if no block of the stage takes it as input
+        self.last_stage_mutable_channels = mid_mutable
+
         last_mutable_expand_value = OneShotMutableValue(
             value_list=self.last_expand_ratio_list,
             default_value=max(self.last_expand_ratio_list))
-- 
2.43.0


From c74c450261f7ee27e2aa59d6c0b4c83e6e0a46b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 096/151] fix: the attentive shortcut pads height and width by
 their own parity

---
 mmrazor/models/architectures/ops/mobilenet_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/ops/mobilenet_series.py b/mmrazor/models/architectures/ops/mobilenet_series.py
index e6817dd..f0b0e27 100644
--- a/mmrazor/models/architectures/ops/mobilenet_series.py
+++ b/mmrazor/models/architectures/ops/mobilenet_series.py
@@ -42,7 +42,7 @@ class ShortcutLayer(BaseOP):
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
         if self.reduction > 1:
-            padding = x.size(-1) & 1
+            padding = (x.size(-2) & 1, x.size(-1) & 1)
             x = F.avg_pool2d(x, self.reduction, padding=padding)
 
         # HACK
-- 
2.43.0


From 7c294a38dca888ae4bf7dd49de2492bcaea492b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 097/151] fix: AutoAugmentV2 ops use the configured fill
 colour, interpolation and translation

---
 mmrazor/datasets/transforms/auto_augmentv2.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mmrazor/datasets/transforms/auto_augmentv2.py b/mmrazor/datasets/transforms/auto_augmentv2.py
index 60d5647..c1c0a86 100644
--- a/mmrazor/datasets/transforms/auto_augmentv2.py
+++ b/mmrazor/datasets/transforms/auto_augmentv2.py
@@ -45,8 +45,10 @@ class AutoAugmentOp(object):
             if 'img_mean' in extra_params else _FILL,  # noqa: E501
             'resample':
             extra_params['interpolation'] if 'interpolation' in extra_params
-            else _interpolation_name_to_pil.values()  # noqa: E501,E131
+            else tuple(_interpolation_name_to_pil.values())  # noqa: E501,E131
         }
+        self.translate_const = extra_params.get(
+            'translate_const', _HPARAMS_DEFAULT['translate_const'])
         self._get_magnitude()
 
     def __call__(self, results):
@@ -55,11 +57,14 @@ class AutoAugmentOp(object):
     def _interpolation(self, kwargs):
         interpolation = kwargs.pop('resample', Image.NEAREST)
         if isinstance(interpolation, (list, tuple)):
-            return random.choice(interpolation)
-        else:
-            return interpolation
+            interpolation = random.choice(interpolation)
+        if isinstance(interpolation, str):
+            interpolation = _interpolation_name_to_pil[interpolation]
+        return interpolation
 
     def _check_args_tf(self, kwargs):
+        for key, value in self.kwargs.items():
+            kwargs.setdefault(key, value)
         if 'fillcolor' in kwargs and _PIL_VER < (5, 0):
             kwargs.pop('fillcolor')
         kwargs['resample'] = self._interpolation(kwargs)
@@ -92,8 +97,7 @@ class AutoAugmentOp(object):
         return (level, )
 
     def _translate_abs_level_to_arg(self, level):
-        level = (level / _MAX_LEVEL) * \
-                float(_HPARAMS_DEFAULT['translate_const'])
+        level = (level / _MAX_LEVEL) * float(self.translate_const)
         level = self._randomly_negate(level)
         return (level, )
 
-- 
2.43.0


From 3608bbbcc99f8912d85dcbba1cdaa95ae92b13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 098/151] fix: AutoAugment uses the configured translation and
 named interpolation

---
 mmrazor/datasets/transforms/auto_augment.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mmrazor/datasets/transforms/auto_augment.py b/mmrazor/datasets/transforms/auto_augment.py
index 0d27264..df646ef 100644
--- a/mmrazor/datasets/transforms/auto_augment.py
+++ b/mmrazor/datasets/transforms/auto_augment.py
@@ -25,14 +25,17 @@ _HPARAMS_DEFAULT = dict(
 )
 
 _RANDOM_INTERPOLATION = (Image.NEAREST, Image.BILINEAR, Image.BICUBIC)
+_INTERPOLATION_NAMES = dict(
+    nearest=Image.NEAREST, bilinear=Image.BILINEAR, bicubic=Image.BICUBIC)
 
 
 def _interpolation(kwargs):
     interpolation = kwargs.pop('resample', Image.NEAREST)
     if isinstance(interpolation, (list, tuple)):
-        return random.choice(interpolation)
-    else:
-        return interpolation
+        interpolation = random.choice(interpolation)
+    if isinstance(interpolation, str):
+        interpolation = _INTERPOLATION_NAMES[interpolation]
+    return interpolation
 
 
 def _check_args_tf(kwargs):
@@ -243,6 +246,9 @@ class AutoAugmentOp(BaseTransform):
             if 'interpolation' in hparams else _RANDOM_INTERPOLATION
         }
 
+        self.translate_const = hparams.get(
+            'translate_const', _HPARAMS_DEFAULT['translate_const'])
+
         self._get_magnitude(name)
 
     def _get_magnitude(self, name):
@@ -292,8 +298,7 @@ class AutoAugmentOp(BaseTransform):
         return (level, )
 
     def _translate_abs_level_to_arg2(self, level):
-        level = (level / _MAX_LEVEL) * float(
-            _HPARAMS_DEFAULT['translate_const'])
+        level = (level / _MAX_LEVEL) * float(self.translate_const)
         level = _randomly_negate(level)
         return (level, )
 
-- 
2.43.0


From ad546d025a90192d0b30fc6458b8dccac52a7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 099/151] fix: PackCRDClsInputs keeps its meta keys for every
 sample

---
 mmrazor/datasets/transforms/formatting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/datasets/transforms/formatting.py b/mmrazor/datasets/transforms/formatting.py
index d2ba63d..412d909 100644
--- a/mmrazor/datasets/transforms/formatting.py
+++ b/mmrazor/datasets/transforms/formatting.py
@@ -9,7 +9,7 @@ except ImportError:
     ClsDataSample = get_placeholder('mmcls')
 
 import warnings
-from typing import Any, Dict, Generator
+from typing import Dict
 
 import numpy as np
 import torch
@@ -53,7 +53,7 @@ class PackCRDClsInputs(PackClsInputs):
 
         if 'sample_idx' in results:
             # transfer `sample_idx` to Tensor
-            self.meta_keys: Generator[Any, None, None] = (
+            self.meta_keys = tuple(
                 key for key in self.meta_keys if key != 'sample_idx')
             value = results['sample_idx']
             if isinstance(value, int):
-- 
2.43.0


From cfdf74bf2ff6c9832320b7c9527de66175b238ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 100/151] fix: CRDDataset handles classes of different sizes

---
 mmrazor/datasets/crd_dataset_wrapper.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mmrazor/datasets/crd_dataset_wrapper.py b/mmrazor/datasets/crd_dataset_wrapper.py
index aa62f38..60193c1 100644
--- a/mmrazor/datasets/crd_dataset_wrapper.py
+++ b/mmrazor/datasets/crd_dataset_wrapper.py
@@ -106,15 +106,12 @@ class CRDDataset:
             ]
 
             if 0 < self.percent < 1:
-                n = int(len(self.cls_negative[0]) * self.percent)
                 self.cls_negative = [
-                    np.random.permutation(self.cls_negative[i])[0:n]
-                    for i in range(num_classes)  # type: ignore
+                    np.random.permutation(negative)
+                    [0:int(len(negative) * self.percent)]
+                    for negative in self.cls_negative
                 ]
 
-            self.cls_positive = np.asarray(self.cls_positive)
-            self.cls_negative = np.asarray(self.cls_negative)
-
     @property
     def metainfo(self) -> dict:
         """Get the meta information of the repeated dataset.
-- 
2.43.0


From 228795b3162ad50e90f27dfb7dbee6856f86f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 101/151] fix: GPTQ works without CUDA

---
 mmrazor/implementations/quantization/gptq/gptq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 84cfd3a..6679daf 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -290,7 +290,8 @@ class GPTQMixIn(ModuleProtocol):
 
                 W[:, i2:] -= Err1.matmul(Hinv[i1:i2, i2:])
 
-            torch.cuda.synchronize()
+            if W.device.type == 'cuda':
+                torch.cuda.synchronize()
             error = torch.sum(Losses).item()
 
             groupsize = groupsize if groupsize != -1 else self.columns
-- 
2.43.0


From 24e7381a6dc21cc17b3b1656a768607fb1e04a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 102/151] fix: GPTQ and SparseGPT leave statistics and, on
 failure, weights alone

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 6 ++++--
 mmrazor/implementations/quantization/gptq/gptq.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 0f11b17..ce622dc 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -141,9 +141,11 @@ class SparseGptMixIn(ModuleProtocol):
             # Converted from https://github.com/ist-daslab/sparsegpt
 
             assert self.hessian is not None
-            W: torch.Tensor = self.weight_matrix.float()  # out in
+            # work on copies: neither the weight of a failed run nor the
+            # statistics may change
+            W: torch.Tensor = self.weight_matrix.float().clone()  # out in
 
-            H = self.hessian.float().to(W.device)
+            H = self.hessian.float().to(W.device).clone()
 
             dead = torch.diag(H) == 0
             H[dead, dead] = 1
diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 6679daf..d177686 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -219,12 +219,14 @@ class GPTQMixIn(ModuleProtocol):
         """The implementation for GPTQ."""
         with torch_setting(dtype=torch.float):
             assert self.hessian is not None
-            W: torch.Tensor = self.weight_matrix.float()  # out in
+            # work on copies: neither the weight of a failed run nor the
+            # statistics may change
+            W: torch.Tensor = self.weight_matrix.float().clone()  # out in
 
             if not quantizer.ready():
                 quantizer.find_params(W, weight=True)
 
-            H = self.hessian.float().to(W.device)
+            H = self.hessian.float().to(W.device).clone()
             dead = torch.diag(H) == 0
             H[dead, dead] = 1
             W[:, dead] = 0
-- 
2.43.0


From 00bbde79462b1522497b573e40c4c717fc3e67ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 103/151] fix: unfold calibration inputs of dilated
 convolutions

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 5 ++++-
 mmrazor/implementations/quantization/gptq/ops.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index ce622dc..ce28007 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -275,6 +275,9 @@ class SparseGptConv2d(DynamicConv2d, SparseGptMixIn):
         """Format input shape."""
         # input B C H W
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=self.padding,
             stride=self.stride)  # B C D
         return input.transpose(-1, -2)
diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index b8c1394..5853f94 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -561,6 +561,9 @@ class GPTQConv2d(DynamicConv2d, GPTQMixIn):
         """Format input shape."""
         # input B C H W
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=self.padding,
             stride=self.stride)  # B C D
         return input.transpose(-1, -2)
-- 
2.43.0


From 28a27903353084378a13f4feef6bfb52c333d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 104/151] fix: init_hessian restarts the batch count

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 1 +
 mmrazor/implementations/quantization/gptq/gptq.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index ce28007..2ae1a3f 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -120,6 +120,7 @@ class SparseGptMixIn(ModuleProtocol):
 
     def init_hessian(self, device=None):
         """Init hessian."""
+        self.hessian_batch = 0
         if dist.is_initialized():
             if dist.get_rank() == 0:
                 self._hessian = torch.zeros([self.columns, self.columns],
diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index d177686..bf83b32 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -142,6 +142,7 @@ class GPTQMixIn(ModuleProtocol):
 
     def init_hessian(self, device=None):
         """Init hessian."""
+        self.hessian_batch = 0
         if dist.is_initialized():
             if dist.get_rank() == 0:
                 self._hessian = torch.zeros([self.columns, self.columns],
-- 
2.43.0


From b9d8a88765c1f88c5434aef237772fbf56994fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 105/151] fix: symmetric GPTQ quantizer clipped channels
 without negative values

---
 mmrazor/implementations/quantization/gptq/quantizer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mmrazor/implementations/quantization/gptq/quantizer.py b/mmrazor/implementations/quantization/gptq/quantizer.py
index 0db2fb9..79fa7b3 100644
--- a/mmrazor/implementations/quantization/gptq/quantizer.py
+++ b/mmrazor/implementations/quantization/gptq/quantizer.py
@@ -68,9 +68,7 @@ class Quantizer(nn.Module):
 
         if self.sym:
             xmax = torch.maximum(torch.abs(xmin), xmax)
-            tmp = xmin < 0
-            if torch.any(tmp):
-                xmin[tmp] = -xmax[tmp]
+            xmin = -xmax
         tmp = (xmin == 0) & (xmax == 0)
         xmin[tmp] = -1
         xmax[tmp] = +1
-- 
2.43.0


From 517e994983c04fc4338558001c597724289df44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 106/151] fix: packed GPTQ zero points of 0 corrupted their
 neighbours

---
 mmrazor/implementations/quantization/gptq/gptq.py | 3 ++-
 mmrazor/implementations/quantization/gptq/ops.py  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index bf83b32..abaed5c 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -192,7 +192,8 @@ class GPTQMixIn(ModuleProtocol):
         qweight = qweight.astype(np.int32)
         self.qweight = torch.from_numpy(qweight).to(self.weight.device)
 
-        zeros -= 1
+        # stored minus one, modulo the number of levels
+        zeros = (zeros - 1) % (2**self.bits)
         zeros = zeros.cpu().numpy().astype(np.uint32)
         qzeros = np.zeros((zeros.shape[0], zeros.shape[1] // 32 * self.bits),
                           dtype=np.uint32)
diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index 5853f94..5a16a91 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -167,7 +167,7 @@ try:
                 g_idx[:, None] * stride_zeros)  # (BLOCK_SIZE_K, BLOCK_SIZE_N,)
 
             zeros = (zeros >> zeros_shifter[None, :]) & maxq
-            zeros = (zeros + 1)
+            zeros = (zeros + 1) & maxq
 
             a = tl.load(
                 a_ptrs, mask=a_mask, other=0.)  # (BLOCK_SIZE_M, BLOCK_SIZE_K)
@@ -327,7 +327,7 @@ try:
             zeros = tl.load(zeros_ptrs)  # (BLOCK_SIZE_K, BLOCK_SIZE_N,)
 
             zeros = (zeros >> zeros_shifter[None, :]) & maxq
-            zeros = (zeros + 1)
+            zeros = (zeros + 1) & maxq
 
             a = tl.load(
                 a_ptrs, mask=a_mask, other=0.)  # (BLOCK_SIZE_M, BLOCK_SIZE_N)
-- 
2.43.0


From 8f3a468a4d62b26658467ccab9416c9455b4a9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 107/151] fix: quantizers work with the parameter names of
 torch 2

---
 mmrazor/models/quantizers/academic_quantizer.py | 2 +-
 mmrazor/models/quantizers/native_quantizer.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/academic_quantizer.py b/mmrazor/models/quantizers/academic_quantizer.py
index 0dbe6dc..db26597 100644
--- a/mmrazor/models/quantizers/academic_quantizer.py
+++ b/mmrazor/models/quantizers/academic_quantizer.py
@@ -109,7 +109,7 @@ class AcademicQuantizer(BaseQuantizer):
         self.sync_module_training_mode(graph_module, mode=True)
 
         graph_module = _fuse_fx(
-            graph_module=graph_module,
+            graph_module,  # its name depends on the version of torch
             is_qat=True,
             fuse_custom_config=fuse_custom_config)
         prepared = prepare(
diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index 7b6f2f9..e44cbd4 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -236,7 +236,7 @@ class TorchNativeQuantizer(BaseQuantizer):
         self.sync_module_training_mode(graph_module, mode=True)
 
         graph_module = _fuse_fx(
-            graph_module=graph_module,
+            graph_module,  # its name depends on the version of torch
             is_qat=True,
             backend_config=self.backend_config)
         prepared = prepare(
-- 
2.43.0


From bcbdf0b00f08a192bcbe620e5fce2f020bc54dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 108/151] fix: QSchemeHandler prints its scheme

---
 mmrazor/structures/quantization/qconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/structures/quantization/qconfig.py b/mmrazor/structures/quantization/qconfig.py
index ab682be..a5051bd 100644
--- a/mmrazor/structures/quantization/qconfig.py
+++ b/mmrazor/structures/quantization/qconfig.py
@@ -93,7 +93,7 @@ class QSchemeHandler(object):
 
     def __str__(self):
         """Print generated args for observers."""
-        return f'dtype: {self.dtype} / bit: {self.bit} / is_symmetry: {self.is_symmetry} / \
+        return f'dtype: {self.qdtype} / bit: {self.bit} / is_symmetry: {self.is_symmetry} / \
                 is_per_channel: {self.is_per_channel} \
                 / extra_kwargs: {self.kwargs}'
 
-- 
2.43.0


From 864dd118a2636b4254c23cbc4bf48cba4d2c791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 109/151] fix: replace per-channel fake quants whose scales
 were learned or observed

---
 mmrazor/structures/quantization/qconfig.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mmrazor/structures/quantization/qconfig.py b/mmrazor/structures/quantization/qconfig.py
index a5051bd..73e79c9 100644
--- a/mmrazor/structures/quantization/qconfig.py
+++ b/mmrazor/structures/quantization/qconfig.py
@@ -184,8 +184,11 @@ class QConfigHandler():
         if update_qparams:
             device = fake_quant_org.scale.device
             fake_quant_ins = fake_quant_wrapper().to(device)
-            fake_quant_ins.scale.copy_(fake_quant_org.scale)
-            fake_quant_ins.zero_point.copy_(fake_quant_org.zero_point)
+            # per-channel parameters are not of the initial shape
+            for name in ('scale', 'zero_point'):
+                value = getattr(fake_quant_org, name).detach()
+                getattr(fake_quant_ins,
+                        name).resize_(value.shape).copy_(value)
             obs = fake_quant_ins.activation_post_process
             obs_org = fake_quant_org.activation_post_process
             obs.min_val.resize_(obs_org.min_val.shape).copy_(obs_org.min_val)
-- 
2.43.0


From c51dfc5e176171d55acf3044128fa16bfd6917cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 110/151] fix: find fakequants before a node once and inside
 containers

---
 .../task_modules/tracer/fx/graph_utils.py     | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/fx/graph_utils.py b/mmrazor/models/task_modules/tracer/fx/graph_utils.py
index ca12917..c3d1acd 100644
--- a/mmrazor/models/task_modules/tracer/fx/graph_utils.py
+++ b/mmrazor/models/task_modules/tracer/fx/graph_utils.py
@@ -31,8 +31,9 @@ def _get_attrs(target: torch.nn.Module, attr: str) -> Any:
     return target
 
 
-def recursive_find_erased_nodes(node, prepared_model):
-    """Find FakeQuant before target node recursively.
+def recursive_find_erased_nodes(node, prepared_model, visited=None):
+    """Find FakeQuant before target node recursively. Each FakeQuant is
+    returned once, even if there are several paths to it.
 
     Examples:
         head_fc = self.head.fc(activation_post_process_87);  \
@@ -54,22 +55,20 @@ def recursive_find_erased_nodes(node, prepared_model):
     activation_post_process_88 | (head_fc, )
     data_samples               | (None, )
     """
-    if node is None:
+    visited = set() if visited is None else visited
+    if node is None or node in visited:
         return []
+    visited.add(node)
 
     if node.op == 'call_module' and isinstance(
             _get_attrs(prepared_model, node.target), FakeQuantizeBase):
         return [node]
 
     nodes_to_erase = []
-    for prev_node in node.args:
-        if isinstance(prev_node, Node):
-            nodes_to_erase.extend(
-                recursive_find_erased_nodes(prev_node, prepared_model))
-    for prev_node in node.kwargs.values():
-        if isinstance(prev_node, Node):
-            nodes_to_erase.extend(
-                recursive_find_erased_nodes(prev_node, prepared_model))
+    # the inputs may be nested in tuples, lists and dicts
+    for prev_node in node.all_input_nodes:
+        nodes_to_erase.extend(
+            recursive_find_erased_nodes(prev_node, prepared_model, visited))
 
     return nodes_to_erase
 
-- 
2.43.0


From b4e748c897f57a84f3cdbe557bd63ddfa2ff5f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 111/151] fix: graphs may read parameters and buffers of the
 model

---
 mmrazor/models/task_modules/tracer/fx/custom_tracer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
index 68d5f08..4f32fac 100644
--- a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
+++ b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
@@ -142,6 +142,9 @@ def _prepare_module_dict(model: torch.nn.Module, fx_graph):
             if isinstance(attr, nn.Module):
                 module_dict[node.target] = nn.Module()
                 special_nodes.append(node)
+            else:
+                # a parameter or buffer
+                module_dict[node.target] = attr
         elif node.op == 'call_method':
             for special_node in special_nodes:
                 if special_node in node.args or \
-- 
2.43.0


From c36ce04a7ac6e3a557b0da3ae0d518ec57b24a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 112/151] fix: convert_batchnorm2d keeps weights, statistics
 and mode

---
 mmrazor/models/quantizers/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmrazor/models/quantizers/base.py b/mmrazor/models/quantizers/base.py
index 78c8163..2ac4e30 100644
--- a/mmrazor/models/quantizers/base.py
+++ b/mmrazor/models/quantizers/base.py
@@ -52,6 +52,11 @@ class BaseQuantizer(BaseModule):
                     bn = nn.BatchNorm2d(child.num_features, child.eps,
                                         child.momentum, child.affine,
                                         child.track_running_stats)
+                    bn.load_state_dict(child.state_dict())
+                    bn.train(child.training)
+                    for param, src in zip(bn.parameters(), child.parameters()):
+                        param.requires_grad = src.requires_grad
+                    bn = bn.to(next(child.parameters(), torch.empty(0)).device)
                     setattr(module, child_name, bn)
                 else:
                     traverse(child)
-- 
2.43.0


From 16b7a57165d284c5ab02b7e7400f2fc379a16712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 113/151] fix: copies of reused modules share their weights

---
 mmrazor/models/task_modules/tracer/fx/custom_tracer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
index 4f32fac..7183612 100644
--- a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
+++ b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
@@ -158,7 +158,8 @@ def _prepare_module_dict(model: torch.nn.Module, fx_graph):
 
 def duplicate_reused_nodes(graph: Graph, modules: Dict[str, Any] = {}):
     """Deepcopy the shared modules (e.g. shared detection head in RetinaNet) to
-    make sure modules can be fused correctly.
+    make sure modules can be fused correctly. The copies share parameters and
+    buffers with the original ones, as the calls of the float model do.
 
     Modified from https://github.com/ModelTC/MQBench/blob/main/mqbench/prepare_by_platform.py  # noqa: E501
     """
@@ -176,7 +177,9 @@ def duplicate_reused_nodes(graph: Graph, modules: Dict[str, Any] = {}):
             for idx, node in enumerate(target_dict[key]):
                 if idx == 0:
                     continue
-                module = deepcopy(modules[node.target])
+                module = modules[node.target]
+                tensors = list(module.parameters()) + list(module.buffers())
+                module = deepcopy(module, {id(t): t for t in tensors})
                 node.target += _dup_prefix + str(idx)
                 dup_modules[node.target] = module
     graph.lint()
-- 
2.43.0


From 7da9517723004e5789ca60553e4b3ca483d8de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 114/151] fix: fixed quantization parameters and histograms
 when statistics are reset

---
 .../algorithms/quantization/mm_architecture.py      | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index ce6d926..e990227 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -16,13 +16,17 @@ from mmrazor.structures.quantization import QConfigHandler
 from ..base import BaseAlgorithm, BaseModel
 
 try:
-    from torch.ao.quantization import (FakeQuantizeBase, MinMaxObserver,
+    from torch.ao.quantization import (FakeQuantizeBase,
+                                       FixedQParamsFakeQuantize,
+                                       HistogramObserver, MinMaxObserver,
                                        PerChannelMinMaxObserver,
                                        disable_observer)
 except ImportError:
     from mmrazor.utils import get_placeholder
 
     FakeQuantizeBase = get_placeholder('torch>=1.13')
+    FixedQParamsFakeQuantize = get_placeholder('torch>=1.13')
+    HistogramObserver = get_placeholder('torch>=1.13')
     MinMaxObserver = get_placeholder('torch>=1.13')
     PerChannelMinMaxObserver = get_placeholder('torch>=1.13')
     disable_observer = get_placeholder('torch>=1.13')
@@ -100,6 +104,13 @@ class MMArchitectureQuant(BaseAlgorithm):
         for module in model.modules():
             if isinstance(module, (MinMaxObserver, PerChannelMinMaxObserver)):
                 module.reset_min_max_vals()
+            elif isinstance(module, HistogramObserver):
+                module.histogram.resize_(module.bins).zero_()
+                module.min_val.fill_(float('inf'))
+                module.max_val.fill_(float('-inf'))
+            elif isinstance(module, FixedQParamsFakeQuantize):
+                # they are constants of the op, not statistics
+                continue
             elif isinstance(module, FakeQuantizeBase):
                 module.scale.data = torch.ones_like(module.scale)
                 module.zero_point.data = torch.zeros_like(module.zero_point)
-- 
2.43.0


From 1cc34926f878a3f9f395d6f6453656895a264a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 115/151] fix: sync_qparams skips empty children

---
 mmrazor/models/algorithms/quantization/mm_architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index e990227..50af7c1 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -134,7 +134,7 @@ class MMArchitectureQuant(BaseAlgorithm):
 
         def traverse(module, prefix):
             for name, child in module._modules.items():
-                if module is None:
+                if child is None:
                     continue
                 child_name = f'{prefix}{name}'
                 if isinstance(child, FakeQuantizeBase):
-- 
2.43.0


From 24fa376f61990ae1dfd34cbda9ec6a9b4c3a7168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 116/151] fix: deployed weights keep the quantization
 parameters they were quantized with

---
 mmrazor/models/quantizers/native_quantizer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index e44cbd4..03b87c6 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -314,8 +314,17 @@ class TorchNativeQuantizer(BaseQuantizer):
                         # with base fakequants and base observers, some
                         # initialized args need to be update by running
                         # weight_fake_quant.
-                        enable_observer(new_child)
-                        new_child.weight_fake_quant(new_child.weight)
+                        if update_weight_with_fakequant:
+                            # The weights are on the grid of
+                            # `weight_fakequant`, which might be learned.
+                            # Estimating another one would round them twice.
+                            new_child.weight_fake_quant = \
+                                self.qconfig.replace_fakequant(
+                                    weight_fakequant,
+                                    self.qconfig.w_qscheme).to(device)
+                        else:
+                            enable_observer(new_child)
+                            new_child.weight_fake_quant(new_child.weight)
                         disable_observer(new_child)
                     else:
                         new_child = float_child.to(device)
-- 
2.43.0


From 289b1108db58626e9242a8c103587f96a604cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 117/151] fix: deployment keeps fake quants of fixed-parameter
 ops

---
 mmrazor/models/algorithms/quantization/mm_architecture.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index 50af7c1..b6e6ec6 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -384,6 +384,9 @@ class MMArchitectureQuant(BaseAlgorithm):
             if 'activation_post_process_' in node.name:
                 module_name = node.target
                 module = getattr(observed_model, module_name)
+                if isinstance(module, FixedQParamsFakeQuantize):
+                    # it is a base fakequant without statistics
+                    continue
                 fakequant_new = QConfigHandler.replace_fakequant(
                     module,
                     self.quantizer.qconfig.a_qscheme,
-- 
2.43.0


From 05f97a16c3c38435d1e42924f0abb1578e03ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 118/151] fix: quantized models are rebuilt before DDP wraps
 them

---
 .../algorithms/quantization/mm_architecture.py     | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index b6e6ec6..273cd66 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -415,13 +415,15 @@ class MMArchitectureQuantDDP(MMDistributedDataParallel):
         if device_ids is None:
             if os.environ.get('LOCAL_RANK') is not None:
                 device_ids = [int(os.environ['LOCAL_RANK'])]
-        super().__init__(device_ids=device_ids, **kwargs)
         # After moving all model parameters and buffers to the GPU
-        # (`model.cuda()`), the buffers in model are different.
-        self.module.qmodels = self.module._build_qmodels(
-            self.module.architecture)
-        self.module.sync_qparams('tensor')
-        self.module.reset_observer_and_fakequant_statistics(self)
+        # (`model.cuda()`), the buffers in model are different. The quantized
+        # models have to be built before the parameters are registered for
+        # the reduction of their gradients.
+        module = kwargs['module']
+        module.qmodels = module._build_qmodels(module.architecture)
+        module.sync_qparams('tensor')
+        module.reset_observer_and_fakequant_statistics(module)
+        super().__init__(device_ids=device_ids, **kwargs)
 
     def calibrate_step(self, data: Union[Dict, Tuple, List]):
         """PTQ method need calibrate by cali data."""
-- 
2.43.0


From 726af75edf69f3cc1287c99288975833e916d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 119/151] fix: weight observers are switched off for deployment

---
 mmrazor/models/quantizers/native_quantizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index 03b87c6..5cf631a 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -323,9 +323,9 @@ class TorchNativeQuantizer(BaseQuantizer):
                                     weight_fakequant,
                                     self.qconfig.w_qscheme).to(device)
                         else:
-                            enable_observer(new_child)
+                            new_child.apply(enable_observer)
                             new_child.weight_fake_quant(new_child.weight)
-                        disable_observer(new_child)
+                        new_child.apply(disable_observer)
                     else:
                         new_child = float_child.to(device)
                     setattr(module, name, new_child)
-- 
2.43.0


From c2329561a886fca11cc9acb225b32a32a46a83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 120/151] fix: quantization-aware training can be stopped early

---
 mmrazor/engine/runner/quantization_loops.py | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index 58d91cf..115bab9 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -92,24 +92,9 @@ class QATEpochBasedLoop(EpochBasedTrainLoop):
         self.runner.model.apply(enable_fake_quant)
         self.runner.model.apply(disable_observer)
 
-    def run(self):
-        """Launch training."""
-        self.runner.call_hook('before_train')
-
-        while self._epoch < self._max_epochs:
-            self.prepare_for_run_epoch()
-            self.run_epoch()
-
-            self._decide_current_val_interval()
-            if (self.runner.val_loop is not None
-                    and self._epoch >= self.val_begin
-                    and self._epoch % self.val_interval == 0):
-                self.runner.val_loop.run()
-
-        self.runner.call_hook('after_train')
-
     def run_epoch(self) -> None:
         """Iterate one epoch."""
+        self.prepare_for_run_epoch()
         self.runner.call_hook('before_train_epoch')
         self.runner.model.train()
 
@@ -182,6 +167,7 @@ class LSQEpochBasedLoop(QATEpochBasedLoop):
 
     def run_epoch(self) -> None:
         """Iterate one epoch."""
+        self.prepare_for_run_epoch()
         self.runner.call_hook('before_train_epoch')
         self.runner.model.train()
 
-- 
2.43.0


From 566321d3f12dda1dc039f5b4a5a09c7ad7c53757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 121/151] fix: resumed LSQ training keeps the learned scales

---
 mmrazor/engine/runner/quantization_loops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index 115bab9..ed24268 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -171,6 +171,9 @@ class LSQEpochBasedLoop(QATEpochBasedLoop):
         self.runner.call_hook('before_train_epoch')
         self.runner.model.train()
 
+        # The scales of a resumed training have been initialized.
+        self.is_first_batch = self.is_first_batch and self._iter == 0
+
         for idx, data_batch in enumerate(self.dataloader):
             if self.is_first_batch:
                 # lsq observer init
-- 
2.43.0


From 394f927c073d4378ac37ed1feb3dbf5a8c08f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 122/151] fix: QATValLoop reports both models at once

---
 mmrazor/engine/runner/quantization_loops.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index ed24268..34bf0b1 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -248,11 +248,7 @@ class QATValLoop(ValLoop):
         qat_metrics = dict()
         for key, value in metrics.items():
             qat_key = 'qat.' + key
-            ori_key = 'original.' + key
             qat_metrics[qat_key] = value
-            self.runner.message_hub.log_scalars.pop(f'val/{ori_key}', None)
-
-        self.runner.call_hook('after_val_epoch', metrics=qat_metrics)
 
         self.runner.call_hook('before_val_epoch')
         self.runner.model.eval()
@@ -261,13 +257,12 @@ class QATValLoop(ValLoop):
 
         # compute metrics
         metrics = self.evaluator.evaluate(len(self.dataloader.dataset))
-        qat_metrics = dict()
         for key, value in metrics.items():
-            qat_key = 'qat.' + key
             ori_key = 'original.' + key
             qat_metrics[ori_key] = value
-            self.runner.message_hub.log_scalars.pop(f'val/{qat_key}', None)
 
+        # Hooks that look for a metric, such as saving the best checkpoint,
+        # have to find the metrics of both models.
         self.runner.call_hook('after_val_epoch', metrics=qat_metrics)
 
         self.runner.call_hook('after_val')
-- 
2.43.0


From b4fef8bc3b38653050c4d4bd45000dca9a4afac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 123/151] fix: iter based Darts training can be stopped early

---
 mmrazor/engine/runner/darts_loop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index a1cd128..b06869e 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -106,7 +106,8 @@ class DartsIterBasedTrainLoop(IterBasedTrainLoop):
         # In iteration-based training loop, we treat the whole training process
         # as a big epoch and execute the corresponding hook.
         self.runner.call_hook('before_train_epoch')
-        while self._iter < self._max_iters:
+        while self._iter < self._max_iters and not getattr(
+                self, 'stop_training', False):
             self.runner.model.train()
 
             data_batch = next(self.multi_loaders)  # type: ignore
-- 
2.43.0


From ac2b78bfd5f448beb7530f0eadee8a239603e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 124/151] fix: the device of modules with buffers but no
 parameters is found

---
 mmrazor/models/utils/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/utils/utils.py b/mmrazor/models/utils/utils.py
index b2fc496..b2bcabd 100644
--- a/mmrazor/models/utils/utils.py
+++ b/mmrazor/models/utils/utils.py
@@ -1,4 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+from itertools import chain
 from typing import List, Union
 
 import torch
@@ -9,15 +10,16 @@ def get_module_device(module: nn.Module) -> torch.device:
     """Get the device of a module.
 
     Args:
-        module (nn.Module): A module contains the parameters.
+        module (nn.Module): A module contains the parameters (or at least
+            buffers, like a batch norm which is not affine).
     """
     try:
-        next(module.parameters())
+        tensor = next(chain(module.parameters(), module.buffers()))
     except StopIteration as e:
         raise ValueError('The input module should contain parameters.') from e
 
-    if next(module.parameters()).is_cuda:
-        return next(module.parameters()).get_device()
+    if tensor.is_cuda:
+        return tensor.get_device()
 
     return torch.device('cpu')
 
-- 
2.43.0


From b656087a759db3e20d6cefe8e7ed992b856d5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 125/151] fix: expanded layers keep the mode, the counter and
 missing affine parameters

---
 mmrazor/models/utils/expandable_utils/ops.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/utils/expandable_utils/ops.py b/mmrazor/models/utils/expandable_utils/ops.py
index f2bc2b0..515e7fb 100644
--- a/mmrazor/models/utils/expandable_utils/ops.py
+++ b/mmrazor/models/utils/expandable_utils/ops.py
@@ -21,11 +21,12 @@ class ExpandableMixin:
             zero (bool, optional): whether to set new weights to zero. Defaults
                 to False.
         """
-        return self.get_expand_op(
+        module = self.get_expand_op(
             self.expanded_in_channel,
             self.expanded_out_channel,
             zero=zero,
         )
+        return module.train(self.training)  # type: ignore
 
     def get_expand_op(self, in_c, out_c, zero=False):
         """Get an expanded op.
@@ -233,6 +234,9 @@ class ExpandableBatchNorm2d(dynamic_ops.DynamicBatchNorm2d, ExpandableMixin):
         if module.running_var is not None:
             module.running_var.data = self.expand_bias(module.running_var,
                                                        self.running_var)
-        module.weight.data = self.expand_bias(module.weight, self.weight)
-        module.bias.data = self.expand_bias(module.bias, self.bias)
+        if module.num_batches_tracked is not None:
+            module.num_batches_tracked.data.copy_(self.num_batches_tracked)
+        if module.affine:
+            module.weight.data = self.expand_bias(module.weight, self.weight)
+            module.bias.data = self.expand_bias(module.bias, self.bias)
         return module
-- 
2.43.0


From 24253194cc907d111f639fa90ad1d56340a5a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 126/151] fix: group fisher information of inputs wider than
 the unit

---
 .../pruning/group_fisher/unit.py              | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index 1c9128b..d43dae0 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -11,6 +11,7 @@ from torch import distributed as dist
 import mmrazor.models.architectures.dynamic_ops as dynamic_ops
 from mmrazor.models.mutables.mutable_channel.mutable_channel_container import \
     MutableChannelContainer
+from mmrazor.models.mutables.mutable_channel.units.channel_unit import Channel
 from mmrazor.models.mutables.mutable_channel.units.l1_mutable_channel_unit import \
     L1MutableChannelUnit  # noqa
 from mmrazor.registry import MODELS
@@ -154,20 +155,24 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         """Accumulate the unit's fisher info of this batch."""
         with torch.no_grad():
             fisher: torch.Tensor = 0
-            for module in self.input_related_dynamic_ops:
-                fisher = fisher + self._fisher_of_a_module(module)
+            for channel in self.input_related:
+                if isinstance(channel.module, GroupFisherMixin):
+                    fisher = fisher + self._fisher_of_a_channel(channel)
             return (fisher**2).sum(0)  # shape: [C]
 
     @torch.no_grad()
-    def _fisher_of_a_module(self, module: GroupFisherMixin) -> torch.Tensor:
-        """Calculate the fisher info of one module.
+    def _fisher_of_a_channel(self, channel: Channel) -> torch.Tensor:
+        """Calculate the fisher info of the inputs of a module which are
+        related to this unit.
 
         Args:
-            module (GroupFisherConv2d): A `GroupFisherConv2d` module.
+            channel (Channel): The input channels of a `GroupFisherConv2d` or
+                `GroupFisherLinear` module.
 
         Return:
             torch.Tensor: Whose shape is [B C]
         """
+        module = channel.module
         assert len(module.recorded_input) > 0 and \
             len(module.recorded_input) == len(module.recorded_grad)
         fisher_sum: torch.Tensor = 0
@@ -179,13 +184,15 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
             assert len(fisher.shape) == 2  # B C
             fisher_sum = fisher_sum + fisher
         assert isinstance(fisher_sum, torch.Tensor)
-        # expand to full num_channel
+        # expand to the full inputs of the module
         batch_size = fisher_sum.shape[0]
-        mask = self.mutable_channel.current_mask.unsqueeze(0).expand(
-            [batch_size, self.num_channels])
-        zeros = fisher_sum.new_zeros([batch_size, self.num_channels])
+        mask = module.get_mutable_attr('in_channels').current_mask.bool()
+        mask = mask.unsqueeze(0).expand([batch_size, mask.numel()])
+        zeros = fisher_sum.new_zeros(mask.shape)
         fisher_sum = zeros.masked_scatter_(mask, fisher_sum)
-        return fisher_sum
+        # the part of this unit, whose channels may be repeated
+        fisher_sum = fisher_sum[:, channel.start:channel.end]
+        return fisher_sum.reshape([batch_size, self.num_channels, -1]).sum(-1)
 
     @torch.no_grad()
     def _get_normalized_fisher_info(self,
-- 
2.43.0


From 3e5b9c0015d6301909baeb207f2c895cb89ec740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 127/151] fix: group fisher always prunes the least important
 channel

---
 mmrazor/implementations/pruning/group_fisher/mutator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/mutator.py b/mmrazor/implementations/pruning/group_fisher/mutator.py
index d9e521a..0962a9f 100644
--- a/mmrazor/implementations/pruning/group_fisher/mutator.py
+++ b/mmrazor/implementations/pruning/group_fisher/mutator.py
@@ -56,8 +56,8 @@ class GroupFisherChannelMutator(ChannelMutator[GroupFisherChannelUnit]):
     def try_prune(self) -> None:
         """Prune the channel with the minimum fisher unless it is the last
         channel of the current layer."""
-        min_imp = 1e5
-        min_unit = self.mutable_units[0]
+        min_imp = float('inf')
+        min_unit = None
         for unit in self.mutable_units:
             if unit.mutable_channel.activated_channels > 1:
                 imp = unit.importance()
@@ -70,7 +70,7 @@ class GroupFisherChannelMutator(ChannelMutator[GroupFisherChannelUnit]):
                 if imp.min() < min_imp:
                     min_imp = imp.min().item()
                     min_unit = unit
-        if min_unit.try_to_prune_min_channel():
+        if min_unit is not None and min_unit.try_to_prune_min_channel():
             if dist.get_rank() == 0:
                 print_log(
                     f'{min_unit.name} prunes a channel with min imp = {min_imp}'  # noqa
-- 
2.43.0


From 8a920ae69323d3ec9f93f951a9e50bbe721c3abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 128/151] fix: group fisher information of linear layers with
 bias

---
 mmrazor/implementations/pruning/group_fisher/ops.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mmrazor/implementations/pruning/group_fisher/ops.py b/mmrazor/implementations/pruning/group_fisher/ops.py
index 35dbbd7..637fcc9 100644
--- a/mmrazor/implementations/pruning/group_fisher/ops.py
+++ b/mmrazor/implementations/pruning/group_fisher/ops.py
@@ -132,6 +132,16 @@ class GroupFisherLinear(DynamicLinear, GroupFisherMixin):
         super().__init__(*args, **kwargs)
         self._init()
 
+    def backward_hook_wrapper(self):
+        """Wrap the hook used in backward."""
+
+        def backward_hook(module: GroupFisherLinear, grad_in, grad_out):
+            # the gradient of the bias comes before the one of the input
+            index = 0 if module.bias is None else 1
+            module.recorded_grad.insert(0, grad_in[index])
+
+        return backward_hook
+
     @property
     def delta_flop_of_a_out_channel(self):
         """Calculate the summation of flops when prune an out_channel."""
-- 
2.43.0


From c962350530324cea1b149c19cd5961cc46bef20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 129/151] fix: GroupFisherDDP reduces the gradients

---
 .../implementations/pruning/group_fisher/algorithm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/algorithm.py b/mmrazor/implementations/pruning/group_fisher/algorithm.py
index a90b406..f4bec27 100644
--- a/mmrazor/implementations/pruning/group_fisher/algorithm.py
+++ b/mmrazor/implementations/pruning/group_fisher/algorithm.py
@@ -58,12 +58,13 @@ class GroupFisherAlgorithm(BaseAlgorithm):
 
     def train_step(self, data: Union[dict, tuple, list],
                    optim_wrapper) -> Dict[str, torch.Tensor]:
-        return self._train_step(data, optim_wrapper)
+        return self._train_step(super().train_step, data, optim_wrapper)
 
-    def _train_step(self, data: Union[dict, tuple, list], optim_wrapper):
+    def _train_step(self, train_step, data: Union[dict, tuple, list],
+                    optim_wrapper):
         """Train step function for GroupFisherAlgorithm and GroupFisherDDP."""
         self.mutator.start_record_info()
-        res = super().train_step(data, optim_wrapper)
+        res = train_step(data, optim_wrapper)
         self.mutator.end_record_info()
 
         self.mutator.update_imp()
@@ -83,4 +84,6 @@ class GroupFisherDDP(MMDistributedDataParallel):
     def train_step(self, data: Union[dict, tuple, list],
                    optim_wrapper) -> Dict[str, torch.Tensor]:
         algorithm = self.module
-        return GroupFisherAlgorithm._train_step(algorithm, data, optim_wrapper)
+        return GroupFisherAlgorithm._train_step(algorithm,
+                                                super().train_step, data,
+                                                optim_wrapper)
-- 
2.43.0


From 3d85441d1cc021a1560ec128ddefc4e907d6b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 130/151] fix: group fisher units can be built from their
 config

---
 .../pruning/group_fisher/unit.py              | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index d43dae0..c5ba5b8 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -1,5 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
-from typing import List
+from typing import Dict, List
 
 import torch
 import torch.nn as nn
@@ -33,8 +33,9 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
                  num_channels: int,
                  normalization_type: str = 'flops',
                  mutate_linear=False,
-                 *args) -> None:
-        super().__init__(num_channels, *args)
+                 *args,
+                 **kwargs) -> None:
+        super().__init__(num_channels, *args, **kwargs)
         normalized_fisher_info = torch.zeros([self.num_channels])
         self.register_buffer('normalized_fisher_info', normalized_fisher_info)
         self.normalized_fisher_info: torch.Tensor
@@ -45,6 +46,18 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
 
         self.mutate_linear = mutate_linear
 
+    def config_template(self,
+                        with_init_args=False,
+                        with_channels=False) -> Dict:
+        """Template of config."""
+        config = super().config_template(with_init_args, with_channels)
+        if with_init_args:
+            config['init_args'].update(
+                dict(
+                    normalization_type=self.delta_type,
+                    mutate_linear=self.mutate_linear))
+        return config
+
     def prepare_for_pruning(self, model: nn.Module) -> None:
         """Prepare for pruning, including register mutable channels.
 
-- 
2.43.0


From dfc53dbf4f7b7b4817b796de9db8e9a33857895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 131/151] fix: flops of a channel of group fisher linear layers

---
 mmrazor/implementations/pruning/group_fisher/ops.py  | 5 +++--
 mmrazor/implementations/pruning/group_fisher/unit.py | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/ops.py b/mmrazor/implementations/pruning/group_fisher/ops.py
index 637fcc9..067957a 100644
--- a/mmrazor/implementations/pruning/group_fisher/ops.py
+++ b/mmrazor/implementations/pruning/group_fisher/ops.py
@@ -145,13 +145,14 @@ class GroupFisherLinear(DynamicLinear, GroupFisherMixin):
     @property
     def delta_flop_of_a_out_channel(self):
         """Calculate the summation of flops when prune an out_channel."""
-        in_c = self.mutable_attrs['in_channels'].current_mask.float().sum()
+        in_c = self.get_mutable_attr('in_channels').current_mask.float().sum()
         return in_c * len(self.recorded_out_shape)
 
     @property
     def delta_flop_of_a_in_channel(self):
         """Calculate the summation of flops when prune an in_channel."""
-        out_c = self.mutable_attrs['out_channels'].current_mask.float().sum()
+        out_c = self.get_mutable_attr(
+            'out_channels').current_mask.float().sum()
         return out_c * len(self.recorded_out_shape)
 
     @property
diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index c5ba5b8..4e5476d 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -237,8 +237,11 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         delta_flop = 0
         for module in self.output_related_dynamic_ops:
             delta_flop += module.delta_flop_of_a_out_channel
-        for module in self.input_related_dynamic_ops:
-            delta_flop += module.delta_flop_of_a_in_channel
+        for channel in self.input_related:
+            if isinstance(channel.module, GroupFisherMixin):
+                # a channel may be repeated in the inputs of a module
+                delta_flop += channel.module.delta_flop_of_a_in_channel * (
+                    channel.num_channels // self.num_channels)
         return delta_flop
 
     @property
-- 
2.43.0


From 497b93d1ff3236260565ea181d2fb1494b6beeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 132/151] fix: group fisher information of wide inputs is still
 computed by module

---
 .../pruning/group_fisher/unit.py              | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index 4e5476d..162486e 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -11,7 +11,6 @@ from torch import distributed as dist
 import mmrazor.models.architectures.dynamic_ops as dynamic_ops
 from mmrazor.models.mutables.mutable_channel.mutable_channel_container import \
     MutableChannelContainer
-from mmrazor.models.mutables.mutable_channel.units.channel_unit import Channel
 from mmrazor.models.mutables.mutable_channel.units.l1_mutable_channel_unit import \
     L1MutableChannelUnit  # noqa
 from mmrazor.registry import MODELS
@@ -168,24 +167,22 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         """Accumulate the unit's fisher info of this batch."""
         with torch.no_grad():
             fisher: torch.Tensor = 0
-            for channel in self.input_related:
-                if isinstance(channel.module, GroupFisherMixin):
-                    fisher = fisher + self._fisher_of_a_channel(channel)
+            # a module may be related by several parts of its inputs
+            for module in dict.fromkeys(self.input_related_dynamic_ops):
+                fisher = fisher + self._fisher_of_a_module(module)
             return (fisher**2).sum(0)  # shape: [C]
 
     @torch.no_grad()
-    def _fisher_of_a_channel(self, channel: Channel) -> torch.Tensor:
-        """Calculate the fisher info of the inputs of a module which are
+    def _fisher_of_a_module(self, module: GroupFisherMixin) -> torch.Tensor:
+        """Calculate the fisher info of the inputs of one module which are
         related to this unit.
 
         Args:
-            channel (Channel): The input channels of a `GroupFisherConv2d` or
-                `GroupFisherLinear` module.
+            module (GroupFisherConv2d): A `GroupFisherConv2d` module.
 
         Return:
             torch.Tensor: Whose shape is [B C]
         """
-        module = channel.module
         assert len(module.recorded_input) > 0 and \
             len(module.recorded_input) == len(module.recorded_grad)
         fisher_sum: torch.Tensor = 0
@@ -203,9 +200,11 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         mask = mask.unsqueeze(0).expand([batch_size, mask.numel()])
         zeros = fisher_sum.new_zeros(mask.shape)
         fisher_sum = zeros.masked_scatter_(mask, fisher_sum)
-        # the part of this unit, whose channels may be repeated
-        fisher_sum = fisher_sum[:, channel.start:channel.end]
-        return fisher_sum.reshape([batch_size, self.num_channels, -1]).sum(-1)
+        # the parts of this unit, whose channels may be repeated
+        return sum(
+            fisher_sum[:, channel.start:channel.end].reshape(
+                [batch_size, self.num_channels, -1]).sum(-1)
+            for channel in self.input_related if channel.module is module)
 
     @torch.no_grad()
     def _get_normalized_fisher_info(self,
-- 
2.43.0


From b5fce0a745308c60a5d25d80a5aba63662bfa31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 133/151] fix: convolution connectors change the recorded
 feature in place

---
 .../models/architectures/connectors/convmodule_connector.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmrazor/models/architectures/connectors/convmodule_connector.py b/mmrazor/models/architectures/connectors/convmodule_connector.py
index 44d5963..e889afc 100644
--- a/mmrazor/models/architectures/connectors/convmodule_connector.py
+++ b/mmrazor/models/architectures/connectors/convmodule_connector.py
@@ -80,6 +80,7 @@ class ConvModuleConnector(BaseConnector):
         Args:
             feature (torch.Tensor): Input feature.
         """
+        inputs = feature
         for layer in self.conv_module.order:
             if layer == 'conv':
                 if self.conv_module.with_explicit_padding:
@@ -88,5 +89,9 @@ class ConvModuleConnector(BaseConnector):
             elif layer == 'norm' and self.conv_module.with_norm:
                 feature = self.conv_module.norm(feature)
             elif layer == 'act' and self.conv_module.with_activation:
+                if feature is inputs:
+                    # The recorded feature is not changed by an inplace
+                    # activation.
+                    feature = feature.clone()
                 feature = self.conv_module.activate(feature)
         return feature
-- 
2.43.0


From 7c39aec33739de312e521065cb59446f8a0bacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 134/151] fix: flattening connectors only accept contiguous
 features

---
 mmrazor/models/architectures/connectors/byot_connector.py | 2 +-
 mmrazor/models/architectures/connectors/crd_connector.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/architectures/connectors/byot_connector.py b/mmrazor/models/architectures/connectors/byot_connector.py
index af27dfe..3b4a4fc 100644
--- a/mmrazor/models/architectures/connectors/byot_connector.py
+++ b/mmrazor/models/architectures/connectors/byot_connector.py
@@ -77,6 +77,6 @@ class BYOTConnector(BaseConnector):
         feat = feat * feature
 
         feat = self.scala(feat)
-        feat = feat.view(feature.size(0), -1)
+        feat = feat.reshape(feature.size(0), -1)
         logits = self.fc(feat)
         return (feat, logits)
diff --git a/mmrazor/models/architectures/connectors/crd_connector.py b/mmrazor/models/architectures/connectors/crd_connector.py
index 48648c7..44da02b 100644
--- a/mmrazor/models/architectures/connectors/crd_connector.py
+++ b/mmrazor/models/architectures/connectors/crd_connector.py
@@ -24,7 +24,7 @@ class CRDConnector(BaseConnector):
         self.l2norm = Normalize(2)
 
     def forward_train(self, x: torch.Tensor) -> torch.Tensor:
-        x = x.view(x.size(0), -1)
+        x = x.reshape(x.size(0), -1)
         x = self.linear(x)
         x = self.l2norm(x)
         return x
-- 
2.43.0


From d15770989dcddcddcd22bc979a5133f34d8e32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 135/151] fix: sub-sampled non-local relations of FBKD are
 pooled twice

---
 mmrazor/models/architectures/connectors/fbkd_connector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/connectors/fbkd_connector.py b/mmrazor/models/architectures/connectors/fbkd_connector.py
index db9007e..0042b1a 100644
--- a/mmrazor/models/architectures/connectors/fbkd_connector.py
+++ b/mmrazor/models/architectures/connectors/fbkd_connector.py
@@ -49,7 +49,8 @@ class NonLocal2dMaxpoolNstride(NonLocal2d):
         """Inits the NonLocal2dMaxpoolNstride module."""
         super().__init__(
             in_channels=in_channels,
-            sub_sample=sub_sample,
+            # the sub-sampling with `maxpool_stride` is added below
+            sub_sample=False,
             conv_cfg=conv_cfg,
             norm_cfg=norm_cfg,
             reduction=reduction,
@@ -57,6 +58,7 @@ class NonLocal2dMaxpoolNstride(NonLocal2d):
             zeros_init=zeros_init,
             **kwargs)
         self.norm_cfg = norm_cfg
+        self.sub_sample = sub_sample
 
         if sub_sample:
             max_pool_layer = nn.MaxPool2d(
-- 
2.43.0


From c5ab8d021800679821ec199a4d320e5ea55ff41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 136/151] fix: the visualization hook ignores wait_time

---
 mmrazor/engine/hooks/visualization_hook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/hooks/visualization_hook.py b/mmrazor/engine/hooks/visualization_hook.py
index 675b365..c405132 100644
--- a/mmrazor/engine/hooks/visualization_hook.py
+++ b/mmrazor/engine/hooks/visualization_hook.py
@@ -201,7 +201,7 @@ class RazorVisualizationHook(Hook):
                         draw_gt=False,
                         draw_pred=False,
                         show=self.show,
-                        wait_time=0.1,
+                        wait_time=self.wait_time,
                         # TODO: Supported in mmengine's Viusalizer.
                         out_file=out_file,
                         step=self._step)
-- 
2.43.0


From 13798195635b970778248bd5b4a0f32959714989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 137/151] fix: a distributed evolution search cannot be resumed

---
 mmrazor/engine/runner/evolution_search_loop.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 7675ef5..7e7ebd9 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -301,15 +301,15 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
 
     def _resume(self):
         """Resume searching."""
-        if self.runner.rank == 0:
-            searcher_resume = fileio.load(self.resume_from)
-            for k in searcher_resume.keys():
-                setattr(self, k, searcher_resume[k])
-            epoch_start = int(searcher_resume['_epoch'])
-            self._max_epochs = self._max_epochs - epoch_start
-            self.runner.logger.info('#' * 100)
-            self.runner.logger.info(f'Resume from epoch: {epoch_start}')
-            self.runner.logger.info('#' * 100)
+        # all ranks have to run the same number of epochs
+        searcher_resume = fileio.load(self.resume_from)
+        for k in searcher_resume.keys():
+            setattr(self, k, searcher_resume[k])
+        epoch_start = int(searcher_resume['_epoch'])
+        self._max_epochs = self._max_epochs - epoch_start
+        self.runner.logger.info('#' * 100)
+        self.runner.logger.info(f'Resume from epoch: {epoch_start}')
+        self.runner.logger.info('#' * 100)
 
     def _save_best_fix_subnet(self):
         """Save best subnet in searched top-k candidates."""
-- 
2.43.0


From 0eb231326d40777dd55de57f390be019bc07c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 138/151] fix: accumulated gradients of a distributed BigNAS
 are not synchronized

---
 mmrazor/models/algorithms/nas/bignas.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/bignas.py b/mmrazor/models/algorithms/nas/bignas.py
index bd3ec4e..c93c080 100644
--- a/mmrazor/models/algorithms/nas/bignas.py
+++ b/mmrazor/models/algorithms/nas/bignas.py
@@ -199,8 +199,10 @@ class BigNASDDP(MMDistributedDataParallel):
                 batch_inputs: torch.Tensor, data_samples: List[BaseDataElement]
         ) -> Dict[str, torch.Tensor]:
             subnet_losses = dict()
+            # Parameters that are not used by the last of the accumulated
+            # subnets would never be synchronized after `no_sync`.
             with optim_wrapper.optim_context(
-                    self
+                    self.module
             ), self.module.distiller.student_recorders:  # type: ignore
                 _ = self(batch_inputs, data_samples, mode='loss')
                 soft_loss = self.module.distiller.compute_distill_losses()
@@ -234,7 +236,7 @@ class BigNASDDP(MMDistributedDataParallel):
                     dropout_stages=self.module.backbone_dropout_stages,
                     drop_path_rate=self.module.drop_path_rate)
                 with optim_wrapper.optim_context(
-                        self
+                        self.module
                 ), self.module.distiller.teacher_recorders:  # type: ignore
                     max_subnet_losses = self(
                         batch_inputs, data_samples, mode='loss')
-- 
2.43.0


From e3c88f8bcc8ed22d6cd4f56ce4467459bc2825e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 139/151] fix: accumulated gradients of a distributed slimmable
 network are not synchronized

---
 mmrazor/models/algorithms/pruning/slimmable_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/pruning/slimmable_network.py b/mmrazor/models/algorithms/pruning/slimmable_network.py
index f57c223..b2d847e 100644
--- a/mmrazor/models/algorithms/pruning/slimmable_network.py
+++ b/mmrazor/models/algorithms/pruning/slimmable_network.py
@@ -185,7 +185,9 @@ class SlimmableNetworkDDP(MMDistributedDataParallel):
 
         for subnet_idx, subnet in enumerate(self.module.mutator.subnets):
             self.module.mutator.set_choices(subnet)
-            with optim_wrapper.optim_context(self):
+            # The switchable norms of all but the last of the accumulated
+            # subnets would never be synchronized after `no_sync`.
+            with optim_wrapper.optim_context(self.module):
                 losses = self(batch_inputs, data_samples, mode='loss')
             parsed_losses, _ = self.module.parse_losses(losses)
             optim_wrapper.update_params(parsed_losses)
-- 
2.43.0


From e62b5c65a8187b289eacc57edc2973d0a7069abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 140/151] fix: architecture gradients of a distributed DMCP are
 not synchronized

---
 mmrazor/models/algorithms/pruning/dmcp.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 702bc75..e6fa291 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -213,9 +213,14 @@ class DMCP(BaseAlgorithm):
                             inputs: torch.Tensor,
                             data_samples: Optional[List[BaseDataElement]],
                             optim_wrapper: OptimWrapper,
-                            mode: str = 'loss') -> Dict:
+                            mode: str = 'loss',
+                            model: Optional[nn.Module] = None) -> Dict:
         """Update the arch parameters in mutator.
 
+        Args:
+            model (nn.Module, optional): The wrapper of this algorithm that
+                synchronizes the gradients. Defaults to the algorithm itself.
+
         Returns:
             dict: It should contain 2 keys: ``arch_loss``, ``flops_loss``.
                 ``arch_loss`` is a tensor for back propagation, which can be a
@@ -227,8 +232,9 @@ class DMCP(BaseAlgorithm):
         self.eval()
         # update arch_loss
         self.set_subnet(mode='max', arch_train=True)
-        with optim_wrapper['mutator'].optim_context(self):
-            arch_loss = self(inputs, data_samples, mode=mode)
+        model = self if model is None else model
+        with optim_wrapper['mutator'].optim_context(model):
+            arch_loss = model(inputs, data_samples, mode=mode)
         parsed_arch_loss, _ = self.parse_losses(arch_loss)
         with keep_grads(self.architecture):
             optim_wrapper['mutator'].update_params(parsed_arch_loss)
@@ -423,6 +429,10 @@ class DMCPDDP(MMDistributedDataParallel):
             with optim_wrapper['mutator'].optim_context(self):
                 optim_wrapper['mutator'].zero_grad()
                 mutator_loss = self.module._update_arch_params(
-                    batch_inputs, data_samples, optim_wrapper, mode='loss')
+                    batch_inputs,
+                    data_samples,
+                    optim_wrapper,
+                    mode='loss',
+                    model=self)
             total_losses.update(mutator_loss)
         return total_losses
-- 
2.43.0


From 9c1623e258bd817bb91de873bac3d3b4342c13bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 141/151] fix: quantized models cannot be exported for OpenVINO
 with recent torch

---
 mmrazor/models/quantizers/native_quantizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index 5cf631a..d53b4b9 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -69,7 +69,7 @@ if digit_version(torch.__version__) >= digit_version('1.13.0'):
     def fake_quantize_per_channel_affine(g, x, scale, zero_point, ch_axis,
                                          quant_min, quant_max):
         return g.op('mmrazor::FixedPerChannelAffine', x, scale, zero_point,
-                    ch_axis, quant_min, quant_max)
+                    ch_axis, quant_min, quant_max).setType(x.type())
 
     register_custom_op_symbolic('::fake_quantize_per_channel_affine',
                                 fake_quantize_per_channel_affine, 11)
@@ -77,7 +77,7 @@ if digit_version(torch.__version__) >= digit_version('1.13.0'):
     def fake_quantize_per_tensor_affine(g, x, scale, zero_point, quant_min,
                                         quant_max):
         return g.op('mmrazor::FixedPerTensorAffine', x, scale, zero_point,
-                    quant_min, quant_max)
+                    quant_min, quant_max).setType(x.type())
 
     register_custom_op_symbolic('::fake_quantize_per_tensor_affine',
                                 fake_quantize_per_tensor_affine, 11)
-- 
2.43.0


From 3c38e1253d30f458a558b0b0d897e8e40d1d41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 142/151] fix: export of a quantized model with a computed
 padding fails

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index f4adc5e..430afff 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -85,8 +85,9 @@ class ONNXOptimUtils():
         nodes_to_be_removed = []
         for idx, node in enumerate(onnx_model.graph.node):
             if node.op_type == 'Pad':
-                pads = name2data[node.input[1]]
-                if all([x == 0 for x in pads]):
+                # The pads may also be computed by other nodes.
+                pads = name2data.get(node.input[1])
+                if pads is not None and all([x == 0 for x in pads]):
                     print_log(f'Remove pad op: <{node.name}>.')
                     next_nodes = inp2node[node.output[0]]
                     for next_node, idx in next_nodes:
-- 
2.43.0


From e98ab59f355691a5a7f392a09e413f6f65899998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 143/151] fix: quantized models with omitted operator inputs
 cannot be exported

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index 430afff..3c661c5 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -204,7 +204,8 @@ class ONNXOptimUtils():
         # Build graph
         for i, node in enumerate(_onnx_model.graph.node):
             for input_name in node.input:
-                if input_name not in initializers:
+                # The name of an omitted optional input is empty.
+                if input_name and input_name not in initializers:
                     indegree[node.name] += 1
                     prev_node = output_name2node[input_name]
                     graph[prev_node.name].append(node)
-- 
2.43.0


From 62154589c0932eec15448d6afb5e76f20e3dc32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 144/151] fix: ranges of weights quantized per channel are
 exported along the wrong axis

---
 .../exporters/openvino_quantize_exporter.py   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
index e706251..ece92b2 100644
--- a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
@@ -99,18 +99,18 @@ class OpenVinoQuantizeExportor(BaseQuantizeExportor):
                 node, tensor_name, qmin, qmax)
             backend_nodes.append(new_node)
 
-            try:
-                # If the successor node (such as a conv node) has weight,
-                # we need get the length of the weight's shape. And ensure
-                # the length of the weight's shape and the new node's
-                # input shape (such as input_low and input_high) is the same.
-                next_node = self.input2node[node.output[0]][0][0]
-                # node for save weights
-                fake_node = self.output2node[next_node.input[1]]
-                tensor = self.name2data[fake_node.input[0]]
-                shape_length = len(tensor.shape)
-                new_shape = [-1] + [1] * (shape_length - 1)
-            except Exception:
+            if tensor_name in self.name2data:
+                # If the quantized tensor is a weight, the length of its shape
+                # and the length of the shape of the new node's inputs (such
+                # as input_low and input_high) should be the same.
+                new_shape = [1] * self.name2data[tensor_name].ndim
+                # Inputs of a per channel fakequant: tensor, scale,
+                # zero_point, ch_axis, qmin, qmax.
+                ch_axis = 0
+                if len(node.input) > 5:
+                    ch_axis = int(self.name2data[node.input[3]])
+                new_shape[ch_axis] = -1
+            else:
                 new_shape = [-1]
 
             # The first element of new_node.input is the tensor name.
-- 
2.43.0


From 0aaf312e72ee2274886999cda312a2720b669b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 145/151] fix: export of a quantized model with its own range
 constants fails

---
 mmrazor/models/quantizers/exporters/base_quantize_exporter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
index 6527d32..a34a2c8 100644
--- a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
@@ -131,8 +131,7 @@ class BaseQuantizeExportor():
         collected_constant_names = set()
         constant_inputs = list()
         for node in symbolic_nodes:
-            constant_inputs = self._get_constant_inputs(node)
-            for constant in constant_inputs:
+            for constant in self._get_constant_inputs(node):
                 if constant.name in collected_constant_names:
                     continue
                 constant_inputs.append(constant)
-- 
2.43.0


From 41504ad8069cad24a76deb9036198b1e6f8b5fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 146/151] fix: nodes computing an output directly from the
 input are lost in exported models

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index 3c661c5..16c2904 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -117,13 +117,15 @@ class ONNXOptimUtils():
         if output2node is None:
             output2node = cls.map_output_and_node(onnx_model)
 
+        graph_outputs = {output.name for output in onnx_model.graph.output}
+
         def _is_standalone_node(node, input2node, output2node):
             for input_name in node.input:
                 if input_name in output2node:
                     return False
 
             for out_node in node.output:
-                if out_node in input2node:
+                if out_node in input2node or out_node in graph_outputs:
                     return False
 
             return True
-- 
2.43.0


From 185ae53c5c0b936cb3d9beb5cb79743ba0753c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 147/151] fix: exported fake quantizers of the same tensor
 share one range

---
 .../models/quantizers/exporters/openvino_quantize_exporter.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
index ece92b2..b52cba0 100644
--- a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
@@ -41,7 +41,8 @@ class OpenVinoQuantizeExportor(BaseQuantizeExportor):
         output_name = node.output[0]
         # Create a node (FakeQuantize)
         keys = ['input_min', 'input_max', 'output_min', 'output_max']
-        input_names = [f'{tensor_name}_{key}' for key in keys]
+        # A tensor may be quantized by several nodes.
+        input_names = [f'{output_name}_{key}' for key in keys]
         backend_node = helper.make_node(
             'FakeQuantize',  # node name
             [tensor_name, *input_names],  # inputs
-- 
2.43.0


From 2becb8d7361348dd0dcf61cebff42736b392edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 148/151] fix: a search with a trained predictor uses it

---
 mmrazor/engine/runner/evolution_search_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 7e7ebd9..b6bbc55 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -442,5 +442,5 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
                     osp.join(self.runner.work_dir, 'predictor'))
                 self.runner.logger.info(
                     f'Predictor pre-trained, saved in {predictor_dir}.')
-            self.use_predictor = True
             self.candidates = Candidates()
+        self.use_predictor = True
-- 
2.43.0


From b4e0e30c011892ec0663e946f228af1acbc6847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 149/151] fix: subnets are converted from the supernet's
 checkpoint

---
 tools/model_converters/convert_supernet2subnet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/model_converters/convert_supernet2subnet.py b/tools/model_converters/convert_supernet2subnet.py
index b9f39a5..8dc384d 100644
--- a/tools/model_converters/convert_supernet2subnet.py
+++ b/tools/model_converters/convert_supernet2subnet.py
@@ -43,6 +43,8 @@ def main():
     cfg.work_dir = '/'.join(args.checkpoint.split('/')[:-1])
 
     runner = Runner.from_cfg(cfg)
+    # `cfg.load_from` only takes effect when a loop is launched
+    runner.load_checkpoint(args.checkpoint)
 
     load_fix_subnet(runner.model, args.yaml)
 
-- 
2.43.0


From 71052b0ffaf2a8253759f31d442814d6fb982175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 150/151] fix: checkpoint converters only remove the leading
 prefix of a name

---
 tools/model_converters/convert_kd_ckpt.py            | 10 +++++-----
 tools/model_converters/convert_kd_ckpt_to_student.py |  2 +-
 tools/model_converters/convert_quant_ckpt.py         |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tools/model_converters/convert_kd_ckpt.py b/tools/model_converters/convert_kd_ckpt.py
index c6e9665..f1d4eb8 100644
--- a/tools/model_converters/convert_kd_ckpt.py
+++ b/tools/model_converters/convert_kd_ckpt.py
@@ -21,11 +21,11 @@ def main():
     new_state_dict = dict()
 
     for key, value in checkpoint['state_dict'].items():
-        if key.startswith('architecture.model.distiller.teacher'):
-            new_key = key.replace('architecture.model.distiller.teacher',
-                                  'architecture.teacher')
-        elif key.startswith('architecture.model'):
-            new_key = key.replace('architecture.model', 'architecture')
+        if key.startswith('architecture.model.distiller.teacher.'):
+            new_key = key.replace('architecture.model.distiller.teacher.',
+                                  'architecture.teacher.', 1)
+        elif key.startswith('architecture.model.'):
+            new_key = key.replace('architecture.model.', 'architecture.', 1)
         else:
             new_key = key
 
diff --git a/tools/model_converters/convert_kd_ckpt_to_student.py b/tools/model_converters/convert_kd_ckpt_to_student.py
index e44f66d..3f141ed 100644
--- a/tools/model_converters/convert_kd_ckpt_to_student.py
+++ b/tools/model_converters/convert_kd_ckpt_to_student.py
@@ -24,7 +24,7 @@ def main():
 
     for key, value in checkpoint['state_dict'].items():
         if key.startswith('architecture.'):
-            new_key = key.replace('architecture.', '')
+            new_key = key[len('architecture.'):]
             new_state_dict[new_key] = value
 
     checkpoint = dict()
diff --git a/tools/model_converters/convert_quant_ckpt.py b/tools/model_converters/convert_quant_ckpt.py
index 9fbb061..34fb96b 100644
--- a/tools/model_converters/convert_quant_ckpt.py
+++ b/tools/model_converters/convert_quant_ckpt.py
@@ -24,7 +24,7 @@ def main():
 
     for key, value in checkpoint['state_dict'].items():
         if key.startswith('qmodels.predict.'):
-            new_key = key.replace('qmodels.predict.', '')
+            new_key = key[len('qmodels.predict.'):]
             if '_val' in new_key and 'weight_fake_quant' in new_key:
                 new_key = new_key.replace('_val', '_vals')
             new_state_dict[new_key] = value
-- 
2.43.0


From 1d0866fbae2e8c4c1d4649a69c79025a49191619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 151/151] fix: convert quantized checkpoints of any weight
 granularity and layer name

---
 tools/model_converters/convert_quant_ckpt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/model_converters/convert_quant_ckpt.py b/tools/model_converters/convert_quant_ckpt.py
index 34fb96b..dc58e52 100644
--- a/tools/model_converters/convert_quant_ckpt.py
+++ b/tools/model_converters/convert_quant_ckpt.py
@@ -25,8 +25,11 @@ def main():
     for key, value in checkpoint['state_dict'].items():
         if key.startswith('qmodels.predict.'):
             new_key = key[len('qmodels.predict.'):]
-            if '_val' in new_key and 'weight_fake_quant' in new_key:
-                new_key = new_key.replace('_val', '_vals')
+            # without metadata, the statistics of channels (not those of
+            # whole tensors) are loaded by their former names
+            if 'weight_fake_quant' in new_key and new_key.endswith(
+                ('.min_val', '.max_val')) and value.dim() > 0:
+                new_key += 's'
             new_state_dict[new_key] = value
         # if key.startswith('architecture.'):
         #     new_key = key.replace('architecture.', '')
-- 
2.43.0

