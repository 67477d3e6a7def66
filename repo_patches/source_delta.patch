From 7056f29138617fa30a96a36fd25b2cbe5eb569b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 001/103] fix: OneShotMutableChannel instances shared one
 default candidate list

---
 .../mutables/mutable_channel/oneshot_mutable_channel.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 3265b79..533bf75 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -23,10 +23,10 @@ class OneShotMutableChannel(SquentialMutableChannel):
                  choice_mode='number',
                  **kwargs):
         super().__init__(num_channels, choice_mode, **kwargs)
-        candidate_choices.sort()
-        self.candidate_choices = candidate_choices
+        candidate_choices = sorted(candidate_choices)
         if candidate_choices == []:
             candidate_choices.append(num_channels if self.is_num_mode else 1.0)
+        self.candidate_choices = candidate_choices
 
     @property
     def current_choice(self) -> Union[int, float]:
-- 
2.43.0


From 32cb283d66ae9e4b431a1dbef429de901f3452ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 002/103] fix: a ratio choice could lose a channel to float
 rounding

---
 .../mutables/mutable_channel/sequential_mutable_channel.py    | 4 +++-
 .../mutable_channel/units/sequential_mutable_channel_unit.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index c2b4f92..17683bb 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -137,4 +137,6 @@ class SquentialMutableChannel(SimpleMutableChannel):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # allow for float error, which must not drop a channel, e.g.
+            # int(49 * (2 / 49)) is 1
+            return max(1, int(self.num_channels * choice + 1e-6))
diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index d32c5fe..1d5ef30 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -149,7 +149,9 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # allow for float error, which must not drop a channel, e.g.
+            # int(49 * (2 / 49)) is 1
+            return max(1, int(self.num_channels * choice + 1e-6))
 
     def _make_divisible_info(self, choice, new_choice):
         logger = MMLogger.get_current_instance()
-- 
2.43.0


From e5793dfa7804bf6d846f6114b8bf614d98eb0b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 003/103] fix: IndexDict missed an overlap with an enclosing
 range

---
 mmrazor/utils/index_dict.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/utils/index_dict.py b/mmrazor/utils/index_dict.py
index a053024..d9daf15 100644
--- a/mmrazor/utils/index_dict.py
+++ b/mmrazor/utils/index_dict.py
@@ -48,8 +48,7 @@ class IndexDict(OrderedDict):
             start, end = __o
             existed = False
             for s, e in self.keys():
-                existed = (s <= start < e or s < end < e or
-                           (s < start and end < e)) or existed
+                existed = (s < end and start < e) or existed
 
             return existed
 
-- 
2.43.0


From 9680bb70109d22c1ef50571950daadd101c7e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 004/103] fix: MutableChannelContainer could not fill a hole
 before a registered range

---
 .../mutables/mutable_channel/mutable_channel_container.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
index 5706d07..f9eeecc 100644
--- a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
+++ b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
@@ -115,7 +115,7 @@ class MutableChannelContainer(BaseMutableChannel):
         for start, end in copy.copy(self.mutable_channels):
             if last_end < start:
                 self.register_mutable(
-                    SimpleMutableChannel(last_end - start), last_end, start)
+                    SimpleMutableChannel(start - last_end), last_end, start)
             last_end = end
         if last_end < self.num_channels:
             self.register_mutable(
-- 
2.43.0


From 739b5328d643cb93748a04122b172c63941d2807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 005/103] fix: a maskless derived mutable could not be expanded
 again

---
 mmrazor/models/mutables/derived_mutable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index ac8a8c6..93565ea 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -158,7 +158,9 @@ class DerivedMethodMixin:
                 f'Not support type of ratio: {type(expand_ratio)}')
 
         mask_fn: Optional[Callable] = None
-        if hasattr(self, 'current_mask'):
+        # `current_mask` of a derived mutable without `mask_fn` is not an
+        # AttributeError, which is the only one `hasattr` would swallow.
+        if getattr(self, 'mask_fn', True) and hasattr(self, 'current_mask'):
             if isinstance(expand_ratio, int):
                 mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
             elif isinstance(expand_ratio, float):
-- 
2.43.0


From da6ab007bcabcd8995178e15481d942ea27df183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 006/103] fix: choice and mask of a derived division used
 different divisors

---
 mmrazor/models/mutables/derived_mutable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index 93565ea..f60f914 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -185,10 +185,12 @@ class DerivedMethodMixin:
             current_ratio = ratio
         elif isinstance(ratio, float):
             current_ratio = int(ratio)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         elif isinstance(ratio, BaseMutable):
             current_ratio = int(ratio.current_choice)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         else:
             raise NotImplementedError(
                 f'Not support type of ratio: {type(ratio)}')
-- 
2.43.0


From 87a39e93afa4eb1ec54ac507a65ea008e6bddd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 007/103] fix: a mutable with derived mutables was put into
 several search groups

---
 mmrazor/models/mutators/group_mixin.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 569f01e..7478950 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -165,9 +165,17 @@ class GroupMixin():
             search_groups[group_name] = group_mutables
             current_group_nums += 1
 
+        # A mutable can be met under several names (itself, and every mutable
+        # derived from it), but must be searched only once.
+        grouped_ids = {id(m) for g in search_groups.values() for m in g}
+
         # Construct search_groups based on alias
         for alias, mutable_names in alias2mutable_names.items():
             if alias not in grouped_alias:
+                mutable_names = [
+                    n for n in mutable_names
+                    if id(name2mutable[n]) not in grouped_ids
+                ]
                 # Check whether all current names are already grouped
                 flag_all_grouped = True
                 for mutable_name in mutable_names:
@@ -184,27 +192,31 @@ class GroupMixin():
                             search_groups[group_name].append(
                                 name2mutable[mutable_name])
                             grouped_mutable_names.append(mutable_name)
+                    grouped_ids.update(map(id, search_groups[group_name]))
                     current_group_nums += 1
 
         # check whether all the mutable objects are in the search_groups
         for name, module in supernet.named_modules():
             if self.is_supported_mutable(module):
-                if name in grouped_mutable_names:
+                if name in grouped_mutable_names or id(module) in grouped_ids:
                     continue
                 else:
                     prefix = module.mutable_prefix
                     group_name = prefix + '_' + str(current_group_nums)
                     search_groups[group_name] = [module]
+                    grouped_ids.add(id(module))
                     current_group_nums += 1
             elif hasattr(module, 'source_mutables'):
                 for each_mutable in module.source_mutables:
                     if self.is_supported_mutable(each_mutable):
-                        if name in grouped_mutable_names:
+                        if name in grouped_mutable_names or \
+                                id(each_mutable) in grouped_ids:
                             continue
                         else:
                             prefix = each_mutable.mutable_prefix
                             group_name = prefix + '_' + str(current_group_nums)
                             search_groups[group_name] = [each_mutable]
+                            grouped_ids.add(id(each_mutable))
                             current_group_nums += 1
 
         grouped_counter = Counter(grouped_mutable_names)
-- 
2.43.0


From 6cd4e84de18a39b1971761bfe5a82530f5e7f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 008/103] fix: a custom search group could not end with an
 alias

---
 mmrazor/models/mutators/group_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 7478950..193a088 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -160,7 +160,7 @@ class GroupMixin():
                     grouped_mutable_names.append(item)
 
             # TODO: fix prefix when constructing custom groups.
-            prefix = name2mutable[item].mutable_prefix
+            prefix = group_mutables[-1].mutable_prefix
             group_name = prefix + '_' + str(current_group_nums)
             search_groups[group_name] = group_mutables
             current_group_nums += 1
-- 
2.43.0


From 62c34b11096369f098e0187da0dcdba403271600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 009/103] fix: fixing a candidate op to an unknown name emptied
 it silently

---
 .../models/mutables/mutable_module/diff_mutable_module.py   | 6 ++++++
 .../mutables/mutable_module/one_shot_mutable_module.py      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index e524ec6..2c5e100 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -221,6 +221,9 @@ class DiffMutableOP(DiffMutableModule):
         if isinstance(chosen, str):
             chosen = [chosen]
 
+        assert set(chosen) <= set(self.choices), \
+            f'Expect chosen in {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
@@ -503,6 +506,9 @@ class DiffChoiceRoute(DiffMutableModule):
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        assert set(chosen) <= set(self.choices), \
+            f'Expect chosen in {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
diff --git a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
index 434b050..93aa10c 100644
--- a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
@@ -231,6 +231,9 @@ class OneShotMutableOP(OneShotMutableModule):
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        assert chosen in self.choices, \
+            f'Expect chosen in {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c != chosen:
                 self._candidates.pop(c)
-- 
2.43.0


From 589ceaa038f06e33391d76d95a6292addf4f64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 010/103] fix: OneHotMutableOP fixed its second candidate
 instead of the most likely one

---
 mmrazor/models/mutables/mutable_module/diff_mutable_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index 2c5e100..621a5fd 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -318,7 +318,7 @@ class OneHotMutableOP(DiffMutableOP):
             index = (
                 sorted_param[0][0] - sorted_param[0][1] >= self.fix_threshold)
             if index:
-                self.fix_chosen(self.choices[index])
+                self.fix_chosen(self.choices[torch.argmax(probs).item()])
 
         if self.is_fixed:
             index = self.choices.index(self._chosen[0])
-- 
2.43.0


From a012ba3e660f6cd84dabd7a8b9a15004cb031006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 011/103] fix: OneShotProbMutableOP accepted probabilities
 summing to less than 1

---
 .../models/mutables/mutable_module/one_shot_mutable_module.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
index 93aa10c..3ebfe48 100644
--- a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
@@ -290,7 +290,7 @@ class OneShotProbMutableOP(OneShotMutableOP):
             alias=alias,
             init_cfg=init_cfg)
         assert choice_probs is not None
-        assert sum(choice_probs) - 1 < np.finfo(np.float64).eps, \
+        assert np.isclose(sum(choice_probs), 1.0), \
             f'Please make sure the sum of the {choice_probs} is 1.'
         self.choice_probs = choice_probs
 
-- 
2.43.0


From 372855bb75c478ff5dd39a99e1258f55d774c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 012/103] fix: a refused second fix of DiffChoiceRoute mixed up
 its inputs

---
 mmrazor/models/mutables/mutable_module/diff_mutable_module.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index 621a5fd..7c40db0 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -499,8 +499,6 @@ class DiffChoiceRoute(DiffMutableModule):
         Args:
             chosen (list(str)): the chosen key in ``MUTABLE``.
         """
-        self._unfixed_choices = self.choices
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
@@ -509,6 +507,7 @@ class DiffChoiceRoute(DiffMutableModule):
         assert set(chosen) <= set(self.choices), \
             f'Expect chosen in {self.choices}, but got: {chosen}'
 
+        self._unfixed_choices = self.choices
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
-- 
2.43.0


From 0b56c3f7a21881ab96c7181913e4af21e421f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 013/103] fix: grouped DynamicConv2d failed without mutable
 in_channels or with a cropped kernel

---
 .../architectures/dynamic_ops/mixins/dynamic_conv_mixins.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index cf63ec1..deb9f28 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -161,7 +161,7 @@ class DynamicConvMixin(DynamicChannelMixin):
             mutable_in_channels = self.mutable_attrs['in_channels']
             in_mask = mutable_in_channels.current_mask.to(weight.device)
         else:
-            in_mask = torch.ones(weight.size(1)).bool().to(weight.device)
+            in_mask = torch.ones(self.in_channels).bool().to(weight.device)
 
         if 'out_channels' in self.mutable_attrs:
             mutable_out_channels = self.mutable_attrs['out_channels']
@@ -189,7 +189,7 @@ class DynamicConvMixin(DynamicChannelMixin):
             weight = weight.flatten(0, 1)
             weight = weight[mask]
             weight = weight.reshape(
-                [self.groups * out_per_group, in_per_group, *self.kernel_size])
+                [self.groups * out_per_group, in_per_group, *weight.shape[1:]])
 
         bias = self.bias[out_mask] if self.bias is not None else None
         return weight, bias
-- 
2.43.0


From d7d34280cb399d83b5aa7b860b656896d6ed16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 014/103] fix: mutable attribute lookups raised KeyError
 instead of returning None when unset

---
 .../architectures/dynamic_ops/bricks/dynamic_container.py   | 2 +-
 .../architectures/dynamic_ops/bricks/dynamic_embed.py       | 2 +-
 .../dynamic_ops/bricks/dynamic_multi_head_attention.py      | 6 +++---
 .../dynamic_ops/bricks/dynamic_relative_position.py         | 2 +-
 .../dynamic_ops/mixins/dynamic_layernorm_mixins.py          | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
index 3696fe3..c74e611 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
@@ -27,7 +27,7 @@ class DynamicSequential(Sequential, DynamicMixin):
     def mutable_depth(self):
         """Mutable depth."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['depth']
+        return getattr(self.mutable_attrs, 'depth', None)
 
     def register_mutable_attr(self: Sequential, attr: str,
                               mutable: BaseMutable):
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
index f255d24..75f178b 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
@@ -47,7 +47,7 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
     def mutable_embed_dims(self):
         """Mutable embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['embed_dims']
+        return getattr(self.mutable_attrs, 'embed_dims', None)
 
     def register_mutable_attr(self: PatchEmbed, attr: str,
                               mutable: BaseMutable):
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 8dcd6de..0384561 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -60,19 +60,19 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
     def mutable_num_heads(self):
         """Mutable number of heads."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['num_heads']
+        return getattr(self.mutable_attrs, 'num_heads', None)
 
     @property
     def mutable_embed_dims(self):
         """Mutable embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['embed_dims']
+        return getattr(self.mutable_attrs, 'embed_dims', None)
 
     @property
     def mutable_q_embed_dims(self):
         """Mutable intermediate embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['q_embed_dims']
+        return getattr(self.mutable_attrs, 'q_embed_dims', None)
 
     def register_mutable_attr(self, attr: str, mutable: BaseMutable):
         """Register attribute of mutable."""
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index 572880a..459c1c4 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -43,7 +43,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
     def mutable_head_dims(self):
         """Mutable head dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['head_dims']
+        return getattr(self.mutable_attrs, 'head_dims', None)
 
     def register_mutable_attr(self, attr: str, mutable: BaseMutable):
         """Register attribute of mutable."""
diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
index 785be99..c513d41 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
@@ -29,7 +29,7 @@ class DynamicLayerNormMixin(DynamicChannelMixin):
     def mutable_num_features(self):
         """Mutable number of features."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['num_features']
+        return getattr(self.mutable_attrs, 'num_features', None)
 
     def register_mutable_attr(self, attr, mutable):
         """Register attribute of mutable."""
-- 
2.43.0


From 1c4a1d459b423ec17e6bf317fe2db8823ab62e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 015/103] fix: DynamicSequential without a depth could not run
 and accepted one layer too many

---
 .../dynamic_ops/bricks/dynamic_container.py          | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
index c74e611..121007c 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
@@ -42,9 +42,9 @@ class DynamicSequential(Sequential, DynamicMixin):
         assert hasattr(self, 'mutable_attrs')
         assert mutable_depth.current_choice is not None
         current_depth = mutable_depth.current_choice
-        if current_depth > len(self._modules):
+        if current_depth > self.pure_module_nums:
             raise ValueError(f'Expect depth of mutable to be smaller than '
-                             f'{len(self._modules)} as `depth`, '
+                             f'{self.pure_module_nums} as `depth`, '
                              f'but got: {current_depth}.')
         self.mutable_attrs['depth'] = mutable_depth
 
@@ -58,7 +58,7 @@ class DynamicSequential(Sequential, DynamicMixin):
         self.check_if_mutables_fixed()
 
         if self.mutable_depth is None:
-            fixed_depth = len(self)
+            fixed_depth = self.pure_module_nums
         else:
             fixed_depth = self.get_current_choice(self.mutable_depth)
 
@@ -79,9 +79,9 @@ class DynamicSequential(Sequential, DynamicMixin):
     def forward(self, x: Tensor) -> Tensor:
         """Forward of Dynamic Sequential."""
         if self.mutable_depth is None:
-            return self(x)
-
-        current_depth = self.get_current_choice(self.mutable_depth)
+            current_depth = self.pure_module_nums
+        else:
+            current_depth = self.get_current_choice(self.mutable_depth)
         passed_module_nums = 0
         for module in self.pure_modules():
             passed_module_nums += 1
-- 
2.43.0


From 30043b31a130e4e84c4459b3b1fac8c42271be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 016/103] fix: DynamicInputResizer used a typing object as its
 default size

---
 .../models/architectures/dynamic_ops/bricks/dynamic_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
index 6e5761e..5bb0803 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
@@ -32,7 +32,7 @@ class DynamicInputResizer(InputResizer, DynamicResizeMixin):
 
     def forward(self,
                 x: torch.Tensor,
-                size=Optional[Tuple[int, int]]) -> torch.Tensor:
+                size: Optional[Tuple[int, int]] = None) -> torch.Tensor:
         self._size = self.get_dynamic_shape()
 
         if not self._size:
-- 
2.43.0


From 3ec79174f03b9efcfd4f91bc1a0200eb6f8c6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 017/103] fix: exported RelativePosition2D lost its maximal
 relative position

---
 .../dynamic_ops/bricks/dynamic_relative_position.py      | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index 459c1c4..e038aac 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -78,11 +78,12 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
     def to_static_op(self) -> nn.Module:
         """Convert dynamic RelativePosition2D to static One."""
         self.check_if_mutables_fixed()
-        assert self.mutable_head_dims is not None
-
-        self.current_head_dim = self.mutable_head_dims.activated_channels
+        if self.mutable_head_dims is None:
+            self.current_head_dim = self.head_dims
+        else:
+            self.current_head_dim = self.mutable_head_dims.activated_channels
         static_relative_position = self.static_op_factory(
-            self.current_head_dim)
+            self.current_head_dim, self.max_relative_position)
         static_relative_position.embeddings_table_v = \
             nn.Parameter(
                 self.embeddings_table_v[:, :self.current_head_dim].clone())
-- 
2.43.0


From de8c385e15d0e7bda5ac731cc15f60c6e8b839cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 018/103] fix: DynamicPatchEmbed ignored stride and dropped the
 projection config on export

---
 .../dynamic_ops/bricks/dynamic_embed.py       | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
index 75f178b..af49187 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
@@ -1,4 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+import copy
 import logging
 from typing import Dict, Set, Tuple
 
@@ -15,7 +16,7 @@ from torch import Tensor
 
 from mmrazor.models.mutables.base_mutable import BaseMutable
 from mmrazor.registry import MODELS
-from ..mixins import DynamicChannelMixin
+from ..mixins import DynamicChannelMixin, DynamicMixin
 
 
 @MODELS.register_module()
@@ -101,16 +102,27 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
     def to_static_op(self: PatchEmbed) -> nn.Module:
         """Convert dynamic PatchEmbed to static PatchEmbed."""
         self.check_if_mutables_fixed()
-        assert self.mutable_embed_dims is not None
 
         weight, bias = self._get_dynamic_params()
+        projection = self.projection
         static_patch_embed = self.static_op_factory(
             img_size=self.img_size,
-            in_channels=3,
-            embed_dims=self.mutable_embed_dims.activated_channels)
+            in_channels=projection.in_channels,
+            embed_dims=weight.size(0),
+            conv_cfg=dict(
+                kernel_size=projection.kernel_size,
+                stride=projection.stride,
+                padding=projection.padding,
+                dilation=projection.dilation,
+                bias=bias is not None))
 
         static_patch_embed.projection.weight = nn.Parameter(weight.clone())
-        static_patch_embed.projection.bias = nn.Parameter(bias.clone())
+        if bias is not None:
+            static_patch_embed.projection.bias = nn.Parameter(bias.clone())
+        if isinstance(self.norm, DynamicMixin):
+            static_patch_embed.norm = self.norm.to_static_op()
+        else:
+            static_patch_embed.norm = copy.deepcopy(self.norm)
 
         return static_patch_embed
 
@@ -125,7 +137,7 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
 
         dynamic_patch_embed = cls(
             img_size=module.img_size,
-            in_channels=3,
+            in_channels=module.projection.in_channels,
             embed_dims=module.embed_dims,
             norm_cfg=None,
             conv_cfg=None,
@@ -144,7 +156,7 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
             x,
             weight,
             bias,
-            stride=16,
+            stride=self.projection.stride,
             padding=self.projection.padding,
             dilation=self.projection.dilation).flatten(2).transpose(1, 2)
 
-- 
2.43.0


From 979f0617917c8d105737ac6142f6cd5422f37203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 019/103] fix: DynamicMultiheadAttention lost its configuration
 on conversion and export

---
 .../bricks/dynamic_multi_head_attention.py    | 76 +++++++++++++------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 0384561..fd0db44 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -1,6 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import logging
-from typing import Dict, Set, Tuple
+from typing import Dict, Optional, Set, Tuple
 
 import torch.nn as nn
 import torch.nn.functional as F
@@ -145,7 +145,7 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         if self.mutable_q_embed_dims is not None:
             in_features = self.mutable_q_embed_dims.activated_channels
         else:
-            in_features = self.embed_dims
+            in_features = self.q_embed_dims
 
         if self.mutable_embed_dims is not None:
             out_features = self.mutable_embed_dims.activated_channels
@@ -172,24 +172,29 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         if self.mutable_embed_dims is not None:
             in_features = self.mutable_embed_dims.activated_channels
         else:
-            in_features = self.embed_dims
+            in_features = self.input_dims
 
         if self.mutable_q_embed_dims is not None:
             out_features = self.mutable_q_embed_dims.activated_channels
         else:
-            out_features = self.mutable_q_embed_dims
+            out_features = self.q_embed_dims
 
         weight = w.weight[:out_features, :in_features]
         bias = w.bias[:out_features] if w.bias is not None else None
 
         return weight, bias
 
+    def _get_current_num_heads(self) -> int:
+        """Get current number of heads."""
+        if self.mutable_num_heads is None:
+            return self.num_heads
+        return self.mutable_num_heads.current_choice
+
     def to_static_op(self) -> MultiheadAttention:
         """Convert dynamic MultiheadAttention to static one."""
         self.check_if_mutables_fixed()
 
-        embed_dims = self.mutable_embed_dims.activated_channels
-        num_heads = self.mutable_num_heads.current_choice
+        num_heads = self._get_current_num_heads()
 
         q_w, q_b = self._get_dynamic_qkv_params(self.w_qs)
         k_w, k_b = self._get_dynamic_qkv_params(self.w_ks)
@@ -198,23 +203,32 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         proj_w, proj_b = self._get_dynamic_proj_params(self.proj)
 
         static_mha = MultiheadAttention(
-            embed_dims=embed_dims,
+            embed_dims=proj_w.size(0),
             num_heads=num_heads,
-            input_dims=None,
+            input_dims=q_w.size(1),
+            attn_drop_rate=self.attn_drop.p,
+            proj_drop_rate=self.proj_drop.p,
+            out_drop_rate=self.out_drop.p,
             relative_position=self.relative_position,
-            max_relative_position=self.max_relative_position)
-
-        static_mha.w_qs.weight = nn.Parameter(q_w.clone())
-        static_mha.w_qs.bias = nn.Parameter(q_b.clone())
-
-        static_mha.w_ks.weight = nn.Parameter(k_w.clone())
-        static_mha.w_ks.bias = nn.Parameter(k_b.clone())
-
-        static_mha.w_vs.weight = nn.Parameter(v_w.clone())
-        static_mha.w_vs.bias = nn.Parameter(v_b.clone())
-
-        static_mha.proj.weight = nn.Parameter(proj_w.clone())
-        static_mha.proj.bias = nn.Parameter(proj_b.clone())
+            max_relative_position=self.max_relative_position,
+            qkv_bias=q_b is not None,
+            qk_scale=self.scale,
+            proj_bias=proj_b is not None,
+            v_shortcut=self.v_shortcut)
+        static_mha.q_embed_dims = q_w.size(0)
+        static_mha.head_dims = q_w.size(0) // num_heads
+
+        def set_params(linear: nn.Linear, weight: Tensor,
+                       bias: Optional[Tensor]) -> None:
+            linear.out_features, linear.in_features = weight.shape
+            linear.weight = nn.Parameter(weight.clone())
+            if bias is not None:
+                linear.bias = nn.Parameter(bias.clone())
+
+        set_params(static_mha.w_qs, q_w, q_b)
+        set_params(static_mha.w_ks, k_w, k_b)
+        set_params(static_mha.w_vs, v_w, v_b)
+        set_params(static_mha.proj, proj_w, proj_b)
 
         if self.relative_position:
             static_mha.rel_pos_embed_k = self.rel_pos_embed_k.to_static_op()
@@ -228,7 +242,16 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         dynamic_mha = cls(
             embed_dims=module.embed_dims,
             num_heads=module.num_heads,
-        )
+            input_dims=module.input_dims,
+            attn_drop_rate=module.attn_drop.p,
+            proj_drop_rate=module.proj_drop.p,
+            out_drop_rate=module.out_drop.p,
+            relative_position=module.relative_position,
+            max_relative_position=module.max_relative_position,
+            qkv_bias=module.w_qs.bias is not None,
+            qk_scale=module.scale,
+            proj_bias=module.proj.bias is not None,
+            v_shortcut=module.v_shortcut)
         return dynamic_mha
 
     def static_op_factory(self):
@@ -242,8 +265,8 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         k_w, k_b = self._get_dynamic_qkv_params(self.w_ks)
         v_w, v_b = self._get_dynamic_qkv_params(self.w_vs)
 
-        q_embed_dims = self.mutable_q_embed_dims.activated_channels
-        num_heads = self.mutable_num_heads.current_choice
+        q_embed_dims = q_w.size(0)
+        num_heads = self._get_current_num_heads()
 
         q = F.linear(x, q_w, q_b).view(B, N, num_heads,
                                        q_embed_dims // num_heads)
@@ -275,5 +298,8 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         # proj
         weight, bias = self._get_dynamic_proj_params(self.proj)
         x = F.linear(x, weight, bias)
-        x = self.proj_drop(x)
+        x = self.out_drop(self.proj_drop(x))
+
+        if self.v_shortcut:
+            x = v.squeeze(1) + x
         return x
-- 
2.43.0


From 13c7850ec244a99e3bf044ea28b8e2977ba94255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 020/103] fix: the backward tracer mixed up concatenations with
 reused ids

---
 mmrazor/models/task_modules/tracer/parsers.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/parsers.py b/mmrazor/models/task_modules/tracer/parsers.py
index c342da7..337b9c0 100644
--- a/mmrazor/models/task_modules/tracer/parsers.py
+++ b/mmrazor/models/task_modules/tracer/parsers.py
@@ -118,13 +118,10 @@ def parse_cat(tracer, grad_fn, module2name, param2module, cur_path,
         >>> # ``out`` is obtained by concatenating two tensors
     """
     parents = grad_fn.next_functions
-    concat_id = '_'.join([str(id(p)) for p in parents])
-    concat_id_list = [str(id(p)) for p in parents]
-    concat_id_list.sort()
-    concat_id = '_'.join(concat_id_list)
-    name = f'concat_{concat_id}'
-
-    visited[name] = True
+    name = f'concat_{id(grad_fn)}'
+    # Keep a reference to ``grad_fn`` so that its id, which names the
+    # concatenation, is not reused by another one during the tracing.
+    visited[name] = grad_fn
     sub_path_lists = list()
     for _, parent in enumerate(parents):
         sub_path_list = PathList()
-- 
2.43.0


From d2ae52f9247057bbf4442fb73cd2bfc2e572ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 021/103] fix: one-shot channel units lost the choice they were
 configured with

---
 .../mutable_channel/units/one_shot_mutable_channel_unit.py     | 3 ++-
 .../mutables/mutable_channel/units/slimmable_channel_unit.py   | 1 -
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
index 220d49b..440abff 100644
--- a/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
@@ -52,6 +52,7 @@ class OneShotMutableChannelUnit(SequentialMutableChannelUnit):
                                                      choice_mode)
 
         self.unit_predefined = False
+        self.current_choice = self.max_choice
 
     @classmethod
     def init_from_mutable_channel(cls, mutable_channel: OneShotMutableChannel):
@@ -60,13 +61,13 @@ class OneShotMutableChannelUnit(SequentialMutableChannelUnit):
                    mutable_channel.choice_mode)
         mutable_channel.candidate_choices = unit.candidate_choices
         unit.mutable_channel = mutable_channel
+        unit.current_choice = unit.max_choice
         return unit
 
     def prepare_for_pruning(self, model: nn.Module):
         """Prepare for pruning."""
         if not self.unit_predefined:
             super().prepare_for_pruning(model)
-        self.current_choice = self.max_choice
 
     # ~
 
diff --git a/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
index a51dce8..c4029f7 100644
--- a/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
@@ -56,4 +56,3 @@ class SlimmableChannelUnit(OneShotMutableChannelUnit):
             if isinstance(channel.module, dynamic_ops.SwitchableBatchNorm2d) \
                     and len(channel.module.candidate_bn) == 0:
                 channel.module.init_candidates(candidates)
-        self.current_choice = self.max_choice
-- 
2.43.0


From 085bac5bd072d5a35d96865bac442b48e8a855c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 022/103] fix: loading a fixed subnet with a prefix stripped
 characters of the module name

---
 mmrazor/structures/subnet/fix_subnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 56b33be..6a6246d 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -78,7 +78,8 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
             chosen = subnet_dict.get(alias, None)
         else:
             if prefix:
-                mutable_name = name.lstrip(prefix)
+                mutable_name = name[len(prefix):] if name.startswith(
+                    prefix) else name
             elif extra_prefix:
                 mutable_name = extra_prefix + name
             else:
-- 
2.43.0


From 58127ba20e245122700a20f94be47449ef5f2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 023/103] fix: Darts mixed up the gradients of the mutator and
 the architecture

---
 mmrazor/models/algorithms/nas/darts.py | 55 +++++++++++++++-----------
 mmrazor/models/utils/__init__.py       |  5 ++-
 mmrazor/models/utils/utils.py          | 40 +++++++++++++++++++
 3 files changed, 75 insertions(+), 25 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index b110f47..ddd2c83 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -10,7 +10,7 @@ from torch import nn
 from torch.nn.modules.batchnorm import _BatchNorm
 
 from mmrazor.models.mutators import NasMutator
-from mmrazor.models.utils import add_prefix
+from mmrazor.models.utils import add_prefix, keep_grads, pop_grads
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ..base import BaseAlgorithm
 
@@ -118,8 +118,9 @@ class Darts(BaseAlgorithm):
             if self.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    mutator_log_vars = self._unrolled_backward(
-                        mutator_data, supernet_data, optim_wrapper)
+                    with keep_grads(self.architecture):
+                        mutator_log_vars = self._unrolled_backward(
+                            mutator_data, supernet_data, optim_wrapper)
                 optim_wrapper['mutator'].step()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
@@ -133,7 +134,8 @@ class Darts(BaseAlgorithm):
                         mode='loss')
                 mutator_losses, mutator_log_vars = self.parse_losses(
                     mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
+                with keep_grads(self.architecture):
+                    optim_wrapper['mutator'].update_params(mutator_losses)
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -145,7 +147,8 @@ class Darts(BaseAlgorithm):
                     supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_losses, supernet_log_vars = self.parse_losses(
                 supernet_loss)
-            optim_wrapper['architecture'].update_params(supernet_losses)
+            with keep_grads(self.mutator):
+                optim_wrapper['architecture'].update_params(supernet_losses)
             log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
@@ -185,8 +188,8 @@ class Darts(BaseAlgorithm):
         # can directly obtained. For more information, please refer to
         # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
         optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [param.grad for param in self.architecture.parameters()]
-        d_arch = [param.grad for param in self.mutator.parameters()]
+        d_model = pop_grads(self.architecture)
+        d_arch = pop_grads(self.mutator)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -215,11 +218,14 @@ class Darts(BaseAlgorithm):
         supernet_loss, _ = self.parse_losses(supernet_loss)
 
         optim_wrapper.backward(supernet_loss)
-        gradients = [param.grad for param in self.architecture.parameters()]
+        gradients = pop_grads(self.architecture)
+        # the virtual step does not contribute to the gradients of alpha
+        pop_grads(self.mutator)
 
         with torch.no_grad():
             for w, g in zip(self.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
                 w = w - lr * (momentum * m + g + weight_decay * w)
 
     def _restore_weights(self, backup_params):
@@ -262,7 +268,7 @@ class Darts(BaseAlgorithm):
             supernet_loss, _ = self.parse_losses(supernet_loss)
 
             optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.mutator.parameters()]
+            dalpha = pop_grads(self.mutator)
             dalphas.append(dalpha)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
@@ -357,8 +363,9 @@ class DartsDDP(MMDistributedDataParallel):
             if self.module.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    mutator_log_vars = self._unrolled_backward(
-                        mutator_data, supernet_data, optim_wrapper)
+                    with keep_grads(self.module.architecture):
+                        mutator_log_vars = self._unrolled_backward(
+                            mutator_data, supernet_data, optim_wrapper)
                 optim_wrapper['mutator'].step()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
@@ -374,7 +381,8 @@ class DartsDDP(MMDistributedDataParallel):
 
                     mutator_losses, mutator_log_vars = self.module.parse_losses(  # noqa: E501
                         mutator_loss)
-                    optim_wrapper['mutator'].update_params(mutator_losses)
+                    with keep_grads(self.module.architecture):
+                        optim_wrapper['mutator'].update_params(mutator_losses)
                     log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -389,7 +397,9 @@ class DartsDDP(MMDistributedDataParallel):
                 supernet_losses, supernet_log_vars = self.module.parse_losses(
                     supernet_loss)
 
-                optim_wrapper['architecture'].update_params(supernet_losses)
+                with keep_grads(self.module.mutator):
+                    optim_wrapper['architecture'].update_params(
+                        supernet_losses)
                 log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
@@ -432,10 +442,8 @@ class DartsDDP(MMDistributedDataParallel):
         # can directly obtained. For more information, please refer to
         # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
         optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
-        d_arch = [param.grad for param in self.module.mutator.parameters()]
+        d_model = pop_grads(self.module.architecture)
+        d_arch = pop_grads(self.module.mutator)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -464,13 +472,14 @@ class DartsDDP(MMDistributedDataParallel):
         supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
         optim_wrapper.backward(supernet_loss)
-        gradients = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
+        gradients = pop_grads(self.module.architecture)
+        # the virtual step does not contribute to the gradients of alpha
+        pop_grads(self.module.mutator)
 
         with torch.no_grad():
             for w, g in zip(self.module.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
                 w = w - lr * (momentum * m + g + weight_decay * w)
 
     def _restore_weights(self, backup_params):
@@ -513,7 +522,7 @@ class DartsDDP(MMDistributedDataParallel):
             supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
             optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.module.mutator.parameters()]
+            dalpha = pop_grads(self.module.mutator)
             dalphas.append(dalpha)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
diff --git a/mmrazor/models/utils/__init__.py b/mmrazor/models/utils/__init__.py
index e3be949..dad04b7 100644
--- a/mmrazor/models/utils/__init__.py
+++ b/mmrazor/models/utils/__init__.py
@@ -4,10 +4,11 @@ from .misc import add_prefix
 from .optim_wrapper import reinitialize_optim_wrapper_count_status
 from .parse_values import parse_values
 from .quantization_util import pop_rewriter_function_record, str2class
-from .utils import get_module_device, set_requires_grad
+from .utils import (get_module_device, keep_grads, pop_grads,
+                    set_requires_grad)
 
 __all__ = [
     'make_divisible', 'add_prefix', 'reinitialize_optim_wrapper_count_status',
     'str2class', 'get_module_device', 'set_requires_grad', 'parse_values',
-    'pop_rewriter_function_record'
+    'pop_rewriter_function_record', 'keep_grads', 'pop_grads'
 ]
diff --git a/mmrazor/models/utils/utils.py b/mmrazor/models/utils/utils.py
index b2fc496..752c14d 100644
--- a/mmrazor/models/utils/utils.py
+++ b/mmrazor/models/utils/utils.py
@@ -1,4 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+from contextlib import contextmanager
 from typing import List, Union
 
 import torch
@@ -37,3 +38,42 @@ def set_requires_grad(nets: Union[nn.Module, List[nn.Module]],
         if net is not None:
             for param in net.parameters():
                 param.requires_grad = requires_grad
+
+
+@contextmanager
+def keep_grads(module: torch.nn.Module):
+    """Keep the gradients of the parameters of a module as they are.
+
+    Gradients accumulated in the context are dropped when it exits. It is used
+    when a loss only updates a part of the parameters that it depends on.
+
+    Args:
+        module (nn.Module): The module whose gradients are kept.
+    """
+    params = list(module.parameters())
+    grads = [param.grad for param in params]
+    for param in params:
+        param.grad = None
+    try:
+        yield
+    finally:
+        for param, grad in zip(params, grads):
+            param.grad = grad
+
+
+def pop_grads(module: torch.nn.Module) -> List[torch.Tensor]:
+    """Take the gradients out of the parameters of a module.
+
+    Args:
+        module (nn.Module): The module whose gradients are taken.
+
+    Returns:
+        List[torch.Tensor]: The gradient of each parameter. It is zero for a
+            parameter without a gradient.
+    """
+    grads = []
+    for param in module.parameters():
+        grads.append(
+            torch.zeros_like(param) if param.grad is None else param.grad)
+        param.grad = None
+    return grads
-- 
2.43.0


From 173ec3d0c420402e0d04c588b7ccdd0959b9e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 024/103] fix: the virtual step of unrolled Darts did not
 change the weights

---
 mmrazor/models/algorithms/nas/darts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index ddd2c83..1fb2909 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -226,7 +226,7 @@ class Darts(BaseAlgorithm):
             for w, g in zip(self.architecture.parameters(), gradients):
                 m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
                 m = 0. if m is None else m
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                w.sub_(lr * (momentum * m + g + weight_decay * w))
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -480,7 +480,7 @@ class DartsDDP(MMDistributedDataParallel):
             for w, g in zip(self.module.architecture.parameters(), gradients):
                 m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
                 m = 0. if m is None else m
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                w.sub_(lr * (momentum * m + g + weight_decay * w))
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
-- 
2.43.0


From b3e8c19cd46049921fc681ad5f5ae9305dccccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:42 +0000
Subject: [PATCH 025/103] fix: DSNAS updated the mutator without the reward of
 the supernet loss

---
 mmrazor/models/algorithms/nas/dsnas.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index e5937ba..ccd138e 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -159,10 +159,12 @@ class DSNAS(BaseAlgorithm):
                     mutator_loss = self.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
@@ -221,7 +223,7 @@ class DSNAS(BaseAlgorithm):
                     str(self.search_space_name_list.index(name))
                 probs = F.softmax(self.mutator.arch_params[k], -1)
                 arch_loss += torch.log(
-                    (module.arch_weights * probs).sum(-1)).sum()
+                    (module.arch_weights.detach() * probs).sum(-1)).sum()
 
                 # get the index of op with max arch weights.
                 index = (module.arch_weights == 1).nonzero().item()
@@ -314,10 +316,12 @@ class DSNASDDP(MMDistributedDataParallel):
                     mutator_loss = self.module.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.module.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.module.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
-- 
2.43.0


From 45b8accc375d10d791c089c888d0c19c51c4a31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:32 +0000
Subject: [PATCH 026/103] fix: the architecture losses of DMCP leaked into the
 weight gradients

---
 mmrazor/models/algorithms/pruning/dmcp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 043cf9a..e1e39fc 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -12,7 +12,7 @@ from torch import nn
 
 from mmrazor.models.distillers import ConfigurableDistiller
 from mmrazor.models.mutators import ChannelMutator, DMCPChannelMutator
-from mmrazor.models.utils import add_prefix
+from mmrazor.models.utils import add_prefix, keep_grads
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ...task_modules.estimators import ResourceEstimator
 from ..base import BaseAlgorithm
@@ -229,7 +229,8 @@ class DMCP(BaseAlgorithm):
         with optim_wrapper['mutator'].optim_context(self):
             arch_loss = self(inputs, data_samples, mode=mode)
         parsed_arch_loss, _ = self.parse_losses(arch_loss)
-        optim_wrapper['mutator'].update_params(parsed_arch_loss)
+        with keep_grads(self.architecture):
+            optim_wrapper['mutator'].update_params(parsed_arch_loss)
         arch_params_loss.update(add_prefix(arch_loss, 'arch'))
 
         # update flops_loss
@@ -238,7 +239,8 @@ class DMCP(BaseAlgorithm):
         flops_loss = self._compute_flops_loss(expected_flops).to(
             arch_loss['loss'].device)
         parsed_flops_loss, _ = self.parse_losses({'loss': flops_loss})
-        optim_wrapper['mutator'].update_params(parsed_flops_loss)
+        with keep_grads(self.architecture):
+            optim_wrapper['mutator'].update_params(parsed_flops_loss)
         arch_params_loss.update(add_prefix({'loss': flops_loss}, 'flops'))
         self.train()
         return arch_params_loss
-- 
2.43.0


From d16167ad2bbdfa43192bc290c5977cfd0fa5c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 027/103] fix: the log_l1 FLOPs loss of DMCP mixed FLOPs and
 MFLOPs

---
 mmrazor/models/algorithms/pruning/dmcp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index e1e39fc..38be04f 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -259,7 +259,8 @@ class DMCP(BaseAlgorithm):
                 the target FLOPs. And the type of this loss should be the same
                 as the expected FLOPs.
         """
-        flops_error = expected_flops - self.target_flops * 1e6
+        target_flops = self.target_flops * 1e6
+        flops_error = expected_flops - target_flops
 
         if self.flops_loss_type == 'l2':
             floss = torch.pow(flops_error, 2)
@@ -271,10 +272,10 @@ class DMCP(BaseAlgorithm):
             else:
                 ratio = 1.0
             # piecewise log function
-            lower_flops = self.target_flops * 0.95
+            lower_flops = target_flops * 0.95
             if expected_flops < lower_flops:
                 floss = torch.log(ratio * abs(flops_error))
-            elif (lower_flops <= expected_flops < self.target_flops):
+            elif (lower_flops <= expected_flops < target_flops):
                 floss = expected_flops * 0
             else:
                 floss = (
-- 
2.43.0


From e82816724e19f267e30a0640342e8596b39a29f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:01 +0000
Subject: [PATCH 028/103] fix: AutoformerBackbone ignored its patch size

---
 .../models/architectures/backbones/searchable_autoformer.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/backbones/searchable_autoformer.py b/mmrazor/models/architectures/backbones/searchable_autoformer.py
index 28bd85d..3bd14f2 100644
--- a/mmrazor/models/architectures/backbones/searchable_autoformer.py
+++ b/mmrazor/models/architectures/backbones/searchable_autoformer.py
@@ -265,7 +265,9 @@ class AutoformerBackbone(BaseBackbone):
         self.patch_embed = DynamicPatchEmbed(
             img_size=self.img_size,
             in_channels=self.in_channels,
-            embed_dims=self.mutable_embed_dims.num_channels)
+            embed_dims=self.mutable_embed_dims.num_channels,
+            conv_cfg=dict(
+                kernel_size=self.patch_size, stride=self.patch_size))
 
         # num of patches
         self.patch_resolution = [
-- 
2.43.0


From b992125e12e258fe6a83173da2cf38fe4b72e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:10 +0000
Subject: [PATCH 029/103] fix: DSNAS could not enter its finetune stage outside
 distributed training

---
 mmrazor/models/algorithms/nas/dsnas.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index ccd138e..aeccb83 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -4,9 +4,8 @@ import os
 from typing import Any, Dict, List, Optional, Union
 
 import torch
-import torch.distributed as dist
 import torch.nn.functional as F
-from mmengine.dist import get_dist_info
+from mmengine.dist import broadcast, get_dist_info
 from mmengine.logging import MessageHub
 from mmengine.model import BaseModel, MMDistributedDataParallel
 from mmengine.optim import OptimWrapper, OptimWrapperDict
@@ -133,7 +132,7 @@ class DSNAS(BaseAlgorithm):
             if cur_epoch == self.finetune_epochs and self.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    broadcast(v.data, src=0)
                 self._fix_archtecture()
                 self.is_supernet = False
 
@@ -290,7 +289,7 @@ class DSNASDDP(MMDistributedDataParallel):
                self.module.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.module.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    broadcast(v.data, src=0)
                 self.module._fix_archtecture()
                 self.module.is_supernet = False
 
-- 
2.43.0


From 8df31d9fc99f04cc835e88fe9e7f316ac4473ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 030/103] fix: recorder and delivery managers left functions
 wrapped

Members sharing a source are nested, but were stopped in the order they were
started, so a wrapper was restored as the original. A member failing to start
left the earlier ones active.
---
 .../models/task_modules/delivery/delivery_manager.py | 12 +++++++++---
 .../models/task_modules/recorder/recorder_manager.py | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/delivery_manager.py b/mmrazor/models/task_modules/delivery/delivery_manager.py
index 592d891..7e7d400 100644
--- a/mmrazor/models/task_modules/delivery/delivery_manager.py
+++ b/mmrazor/models/task_modules/delivery/delivery_manager.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
+from contextlib import ExitStack
 from typing import Dict, Optional
 
 from mmrazor.registry import TASK_UTILS
@@ -104,10 +105,15 @@ class DistillDeliveryManager:
 
     def __enter__(self) -> None:
         """Enter the context manager."""
-        for delivery in self.deliveries.values():
-            delivery.__enter__()
+        # If a delivery fails to start, stop the ones already started.
+        with ExitStack() as stack:
+            for delivery in self.deliveries.values():
+                stack.enter_context(delivery)
+            stack.pop_all()
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
         """Exit the context manager."""
-        for delivery in self.deliveries.values():
+        # Deliveries may share a target, so they are nested: the last started
+        # one has to be stopped first.
+        for delivery in reversed(list(self.deliveries.values())):
             delivery.__exit__(exc_type, exc_value, traceback)
diff --git a/mmrazor/models/task_modules/recorder/recorder_manager.py b/mmrazor/models/task_modules/recorder/recorder_manager.py
index 30fbbb3..ccd1f4f 100644
--- a/mmrazor/models/task_modules/recorder/recorder_manager.py
+++ b/mmrazor/models/task_modules/recorder/recorder_manager.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
+from contextlib import ExitStack
 from typing import Dict, Optional
 
 from torch import nn
@@ -107,10 +108,15 @@ class RecorderManager:
 
     def __enter__(self):
         """Enter the context manager."""
-        for recorder in self.recorders.values():
-            recorder.__enter__()
+        # If a recorder fails to start, stop the ones already started.
+        with ExitStack() as stack:
+            for recorder in self.recorders.values():
+                stack.enter_context(recorder)
+            stack.pop_all()
 
     def __exit__(self, exc_type, exc_value, traceback):
         """Exit the context manager."""
-        for recorder in self.recorders.values():
+        # Recorders may share a source, so they are nested: the last started
+        # one has to be stopped first.
+        for recorder in reversed(list(self.recorders.values())):
             recorder.__exit__(exc_type, exc_value, traceback)
-- 
2.43.0


From 8eec605d36c1b57b4fa58685c79888bfe5ab85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 031/103] fix: method recorders and deliveries bypassed others
 on the same method

The method was looked up when the recorder was built instead of when it was
started, and an inherited method was restored as an attribute of the subclass.
---
 .../task_modules/delivery/method_outputs_delivery.py   |  8 +++++++-
 .../task_modules/recorder/method_outputs_recorder.py   | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
index fa9f6c4..8854b9b 100644
--- a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
+++ b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
@@ -125,6 +125,9 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Wrap the origin method.
         """
+        # The method may be wrapped by others after this delivery was built.
+        self.inherited = self.method_name not in vars(self.imported_cls)
+        self.origin_method = getattr(self.imported_cls, self.method_name)
         wrapped_method = self.deliver_wrapper(self.origin_method)
         setattr(self.imported_cls, self.method_name, wrapped_method)
 
@@ -133,7 +136,10 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Reset the origin method.
         """
-        setattr(self.imported_cls, self.method_name, self.origin_method)
+        if self.inherited:
+            delattr(self.imported_cls, self.method_name)
+        else:
+            setattr(self.imported_cls, self.method_name, self.origin_method)
 
     def deliver_wrapper(self, origin_method: Callable) -> Callable:
         """Wrap the specific method to make the intermediate results of the
diff --git a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
index 6d3fb65..2483b2e 100644
--- a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
+++ b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
@@ -148,7 +148,10 @@ class MethodOutputsRecorder(BaseRecorder):
         super().__enter__()
 
         imported_cls = self.imported_class
-        origin_method = self.origin_method
+        # The method may be wrapped by others after this recorder was built.
+        self.inherited = self.method_name not in vars(imported_cls)
+        origin_method = getattr(imported_cls, self.method_name)
+        self.origin_method = origin_method
         # add record wrapper to origin method.
         record_method = self.method_record_wrapper(origin_method,
                                                    self.data_buffer)
@@ -164,4 +167,7 @@ class MethodOutputsRecorder(BaseRecorder):
         origin_method = self.origin_method
 
         # restore the origin method
-        setattr(imported_cls, self.method_name, origin_method)
+        if self.inherited:
+            delattr(imported_cls, self.method_name)
+        else:
+            setattr(imported_cls, self.method_name, origin_method)
-- 
2.43.0


From 0ce7f19775a09ca8fa0f3e713e99c51e5705e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 032/103] fix: in-place activations inside a ConvModule stayed
 in-place

The search for in-place modules did not go on below a module which has an
`inplace` attribute itself, so recorders saw overwritten features.
---
 mmrazor/models/algorithms/base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/algorithms/base.py b/mmrazor/models/algorithms/base.py
index 5bb9839..0b4d544 100644
--- a/mmrazor/models/algorithms/base.py
+++ b/mmrazor/models/algorithms/base.py
@@ -182,9 +182,8 @@ class BaseAlgorithm(BaseModel):
 
         This function will disassemble the Args architecture .If type
         'nn.Module' is detected, determine if it contains an 'inplace'
-        attribute and set False if it does. If none, get the OrderedDict
-        and then iterate through the dictionary to continue the recursive
-        search.
+        attribute and set False if it does. Then get the OrderedDict and
+        iterate through the dictionary to continue the recursive search.
 
         Args:
             architecture (OrderedDict | nn.Module): The config OrderedDict
@@ -199,9 +198,8 @@ class BaseAlgorithm(BaseModel):
         if isinstance(architecture, nn.Module):
             if hasattr(eval(varstr), 'inplace'):
                 eval(varstr).inplace = False
-            else:
-                self.set_module_inplace_false(architecture._modules,
-                                              varstr + '._modules')
+            self.set_module_inplace_false(architecture._modules,
+                                          varstr + '._modules')
         elif isinstance(architecture, OrderedDict):
             for key, value in architecture.items():
                 self.set_module_inplace_false(value, varstr + f"['{key}']")
-- 
2.43.0


From 9da16cffb0d7c929f03fd592d3dc64e2fdd55fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:04 +0000
Subject: [PATCH 033/103] fix: the generator loss of data-free distillation
 leaked into the student

---
 .../distill/configurable/datafree_distillation.py      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
index 1aff807..24746c4 100644
--- a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
+++ b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
@@ -6,7 +6,7 @@ import torch.nn as nn
 from mmengine.optim import OPTIMIZERS, OptimWrapper
 from mmengine.runner import load_checkpoint
 
-from mmrazor.models.utils import add_prefix, set_requires_grad
+from mmrazor.models.utils import add_prefix, keep_grads, set_requires_grad
 from mmrazor.registry import MODELS
 from ...base import BaseAlgorithm
 
@@ -166,7 +166,9 @@ class DataFreeDistillation(BaseAlgorithm):
             loss_generator = self.generator_distiller.compute_distill_losses()
 
         generator_loss, generator_loss_vars = self.parse_losses(loss_generator)
-        optimizer.update_params(generator_loss)
+        # The loss of the generator must not update the student.
+        with keep_grads(self.student):
+            optimizer.update_params(generator_loss)
         log_vars = dict(add_prefix(generator_loss_vars, 'generator'))
 
         return generator_loss, log_vars
@@ -223,7 +225,9 @@ class DAFLDataFreeDistillation(DataFreeDistillation):
         distill_loss, distill_log_vars = self.parse_losses(loss_distill)
         log_vars.update(add_prefix(distill_log_vars, 'distill'))
 
-        optim_wrapper['generator'].update_params(generator_loss)
+        # The loss of the generator must not update the student.
+        with keep_grads(self.student):
+            optim_wrapper['generator'].update_params(generator_loss)
         optim_wrapper['architecture'].update_params(distill_loss)
 
         return log_vars
-- 
2.43.0


From 40769a44cf2b4fa42c37c4d42eb2438ac5b83d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 034/103] fix: recorded teacher features of data-free
 distillation were overwritten

The in-place modules of the teachers were not turned off as those of the
student are.
---
 .../algorithms/distill/configurable/datafree_distillation.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
index 24746c4..286a452 100644
--- a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
+++ b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
@@ -60,6 +60,9 @@ class DataFreeDistillation(BaseAlgorithm):
                                     cfg['ckpt_path'])
             self.teachers[teacher_name].eval()
             set_requires_grad(self.teachers[teacher_name], False)
+        # In-place operations overwrite the recorded features.
+        if not self.module_inplace:
+            self.set_module_inplace_false(self.teachers, 'self.teachers')
 
         if not isinstance(generator, Dict):
             raise TypeError('generator should be a `dict` instance, but got '
-- 
2.43.0


From 2af9e4423b90a3a69f541aa34600b8636d3c232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:39 +0000
Subject: [PATCH 035/103] fix: the greedy sampler trained one subnet for ever

The subnet used was never popped from the top-k candidates, so they were
never updated.
---
 mmrazor/engine/runner/subnet_sampler_loop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 4f26ee7..5907fb6 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -218,6 +218,9 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             2. Pop from the `top_k_candidates` one by one to train
             the supernet.
         """
+        if len(self.top_k_candidates) > 0:
+            # The first one has been trained in the last iteration.
+            self.top_k_candidates.pop(0)
         if len(self.top_k_candidates) == 0:
             self.update_cur_prob(cur_iter=self._iter)
 
-- 
2.43.0


From 0e78f018d1a0f84f18ac1dc48304988e441f906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:39 +0000
Subject: [PATCH 036/103] fix: the probability schedules of the greedy sampler
 were not continuous

The linear one forgot the initial probability and the cosine one went from 1
down to it.
---
 mmrazor/engine/runner/subnet_sampler_loop.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 5907fb6..a8a9326 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -259,14 +259,14 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             schedule_all_steps = self.schedule_end_iter - \
                 self.schedule_start_iter
             schedule_cur_steps = cur_iter - self.schedule_start_iter
+            tmp = self.max_prob - self.init_prob
             if self.prob_schedule == 'linear':
-                tmp = self.max_prob - self.init_prob
-                self.cur_prob = tmp / schedule_all_steps * schedule_cur_steps
+                self.cur_prob = tmp / schedule_all_steps * \
+                    schedule_cur_steps + self.init_prob
             elif self.prob_schedule == 'consine':
-                tmp_1 = (1 - self.init_prob) * 0.5
                 tmp_2 = math.pi * schedule_cur_steps
                 tmp_3 = schedule_all_steps
-                self.cur_prob = tmp_1 * (1 + math.cos(tmp_2 / tmp_3)) \
+                self.cur_prob = tmp * 0.5 * (1 - math.cos(tmp_2 / tmp_3)) \
                     + self.init_prob
             else:
                 raise ValueError('`prob_schedule` is eroor, it should be \
-- 
2.43.0


From 5d3b5308612d8bb9fc7773d2d7e3b59094e79f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:39 +0000
Subject: [PATCH 037/103] fix: a resumed AutoSlim search lost the target it had
 just reached

The last checkpoint of a target is saved before its subnet is recorded.
---
 mmrazor/engine/runner/autoslim_greedy_search_loop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/autoslim_greedy_search_loop.py b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
index cf9752c..4da279f 100644
--- a/mmrazor/engine/runner/autoslim_greedy_search_loop.py
+++ b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
@@ -95,8 +95,9 @@ class AutoSlimGreedySearchLoop(TestLoop):
         if self.resume_from:
             self._resume()
 
-        for target in self.target_flops:
-            if self.resume_from and self.current_flops <= target:
+        for i, target in enumerate(self.target_flops):
+            if i < len(self.searched_subnet):
+                # found before the search was interrupted
                 continue
 
             if self.current_flops <= target:
-- 
2.43.0


From 346364e96e76a2349d0080a7d2e83d4c344a9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:39 +0000
Subject: [PATCH 038/103] fix: BN calibration counted the keys of a batch
 instead of its samples

A dict batch was not cut to the remaining samples, and could not be sliced
when at most two samples remained.
---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 3e0fe49..4474c05 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -76,11 +76,11 @@ class CalibrateBNMixin:
             f'Total sample number for calibration: {calibrate_sample_num}')
         remaining = calibrate_sample_num
         for data_batch in dataloader:
-            if len(data_batch) >= remaining:
-                data_batch = data_batch[:remaining]
             if isinstance(data_batch, torch.Tensor):
+                data_batch = data_batch[:remaining]
                 data_batch_nums = len(data_batch)
             else:
+                data_batch = {k: v[:remaining] for k, v in data_batch.items()}
                 data_batch_nums = len(data_batch['inputs'])
             if dist.is_initialized() and dist.is_available():
                 data_batch_tensor = torch.tensor(
-- 
2.43.0


From 79080e213fea6bbd5423ccb57951c8b17345899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:39 +0000
Subject: [PATCH 039/103] fix: BN calibration wrote the statistics of a subset
 into the first channels

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 4474c05..2539889 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -8,6 +8,9 @@ from torch import Tensor
 from torch.nn.modules.batchnorm import _BatchNorm
 from torch.utils.data import DataLoader
 
+from mmrazor.models.architectures.dynamic_ops.mixins import \
+    DynamicBatchNormMixin
+
 
 class AverageMeter:
     """Computes and stores the average and current value."""
@@ -129,8 +132,15 @@ class CalibrateBNMixin:
                     'l2 norm of original running var: '
                     f'{module.running_var[:feature_dim].norm()}, ')
 
-                module.running_mean[:feature_dim].copy_(calibrated_bn_mean)
-                module.running_var[:feature_dim].copy_(calibrated_bn_var)
+                if isinstance(module, DynamicBatchNormMixin):
+                    # The activated channels may be any subset.
+                    mask = module._get_num_features_mask()
+                    module.running_mean.masked_scatter_(
+                        mask, calibrated_bn_mean)
+                    module.running_var.masked_scatter_(mask, calibrated_bn_var)
+                else:
+                    module.running_mean[:feature_dim].copy_(calibrated_bn_mean)
+                    module.running_var[:feature_dim].copy_(calibrated_bn_var)
 
                 del module.__mean_average_meter__
                 del module.__var_average_meter__
-- 
2.43.0


From 317b99730184b944388d28d8b7908911d06b6acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 040/103] fix: evolution search never used a predictor loaded
 from a checkpoint

---
 mmrazor/engine/runner/evolution_search_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 644385e..bfd621c 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -439,5 +439,5 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
                     osp.join(self.runner.work_dir, 'predictor'))
                 self.runner.logger.info(
                     f'Predictor pre-trained, saved in {predictor_dir}.')
-            self.use_predictor = True
             self.candidates = Candidates()
+        self.use_predictor = True
-- 
2.43.0


From 9097d4060fa95ce37a95722cb688e0358b4d4d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 041/103] fix: MetricPredictor used np.int, which numpy has
 removed

---
 mmrazor/models/task_modules/predictor/metric_predictor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/predictor/metric_predictor.py b/mmrazor/models/task_modules/predictor/metric_predictor.py
index 796c3ac..fba9fcf 100644
--- a/mmrazor/models/task_modules/predictor/metric_predictor.py
+++ b/mmrazor/models/task_modules/predictor/metric_predictor.py
@@ -106,7 +106,7 @@ class MetricPredictor:
                     f'`DumpChosen.meta` of current {key} should not be None '
                     'when converting the search space.')
                 onehot = np.zeros(
-                    len(choice.meta['all_choices']), dtype=np.int)
+                    len(choice.meta['all_choices']), dtype=int)
                 _chosen_index = choice.meta['all_choices'].index(choice.chosen)
             else:
                 if key is not None:
@@ -119,7 +119,7 @@ class MetricPredictor:
                 else:
                     assert len(self.search_groups[index]) == 1
                     choices = self.search_groups[index][0].choices
-                onehot = np.zeros(len(choices), dtype=np.int)
+                onehot = np.zeros(len(choices), dtype=int)
                 _chosen_index = choices.index(choice)
             onehot[_chosen_index] = 1
 
-- 
2.43.0


From dfd5280f22f824bbadaea3e16b82e1256a3bc991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 042/103] fix: MetricPredictor predicted from another encoding
 than it was trained on

---
 .../models/task_modules/predictor/metric_predictor.py    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/task_modules/predictor/metric_predictor.py b/mmrazor/models/task_modules/predictor/metric_predictor.py
index fba9fcf..9ccc459 100644
--- a/mmrazor/models/task_modules/predictor/metric_predictor.py
+++ b/mmrazor/models/task_modules/predictor/metric_predictor.py
@@ -10,7 +10,6 @@ except ImportError:
     stats = get_placeholder('scipy')
 
 from mmrazor.registry import TASK_UTILS
-from mmrazor.structures import export_fix_subnet
 from mmrazor.utils.typing import DumpChosen
 from .handler import RBFHandler
 
@@ -73,8 +72,12 @@ class MetricPredictor:
             'cause the model of handler in predictor needs to be initialized.')
 
         if self.initialize:
-            model, _ = export_fix_subnet(model)
-            data = self.preprocess(np.array([self.model2vector(model)]))
+            # encoded by search groups, as the training data
+            choices = {
+                name: mutables[0].current_choice
+                for name, mutables in self.search_groups.items()
+            }
+            data = self.preprocess(np.array([self.model2vector(choices)]))
             score = float(np.squeeze(self.handler.predict(data)))
             if metric.get(self.score_key_list[0], None):
                 metric.update({self.score_key_list[1]: score})
-- 
2.43.0


From c1d167180bc8eee5f6179e2bf3b26b13c62ff0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 043/103] fix: IterMultiLoader could not start a second epoch

---
 mmrazor/engine/runner/darts_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index 65e4611..3c3762c 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -171,7 +171,7 @@ class IterMultiLoader:
             for loader in self._dataloaders:
                 if hasattr(loader.sampler, 'set_epoch'):
                     loader.sampler.set_epoch(self._epoch)
-            self.iter_loader = [iter(loader) for loader in self._dataloaders]
+            self.iter_loaders = [iter(loader) for loader in self._dataloaders]
             data = tuple([next(loader) for loader in self.iter_loaders])
 
         return data
-- 
2.43.0


From 9466c3ad32dcd7d3c87ee7f93c2a2f5992866746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 044/103] fix: the greedy sampler trained in evaluation mode
 after sampling

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index a8a9326..af31fde 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -61,6 +61,8 @@ class BaseSamplerTrainLoop(IterBasedTrainLoop):
         # outputs should be a dict of loss.
         subnet = self.sample_subnet()
         self.model.mutator.set_choices(subnet)
+        # sampling may have evaluated candidates
+        self.runner.model.train()
         outputs = self.runner.model.train_step(
             data_batch, optim_wrapper=self.runner.optim_wrapper)
         self.runner.message_hub.update_info('train_logs', outputs)
-- 
2.43.0


From 494a00b5e9cca546b3d69678f7e13a5df685c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 045/103] fix: a OneShotMutableChannel of ratios could not be
 fixed to its exported choice

---
 .../mutable_channel/oneshot_mutable_channel.py         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 533bf75..e5cba06 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -40,3 +40,13 @@ class OneShotMutableChannel(SquentialMutableChannel):
         SquentialMutableChannel.current_choice.fset(  # type: ignore
             self,  # type: ignore
             choice)  # type: ignore
+
+    def fix_chosen(self, chosen=...):
+        """Fix chosen."""
+        if isinstance(chosen, int) and not self.is_num_mode:
+            # An exported choice is a number of channels.
+            for choice in self.candidate_choices:
+                if self._ratio2num(choice) == chosen:
+                    chosen = choice
+                    break
+        super().fix_chosen(chosen)
-- 
2.43.0


From e9ed68d4f5ecd9cb3e6dabe0ec226d21ff6e00f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 046/103] fix: the mutator data of epoch-based Darts came in
 the same order every epoch

---
 mmrazor/engine/runner/darts_loop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index 3c3762c..4af269d 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -52,6 +52,10 @@ class DartsEpochBasedTrainLoop(EpochBasedTrainLoop):
     def run_epoch(self) -> None:
         """Iterate one epoch."""
         self.runner.call_hook('before_train_epoch')
+        # ``DistSamplerSeedHook`` only takes care of ``self.dataloader``
+        sampler = getattr(self.mutator_dataloader, 'sampler', None)
+        if hasattr(sampler, 'set_epoch'):
+            sampler.set_epoch(self._epoch)
         self.runner.model.train()
 
         for idx, data_batch in enumerate(EpochMultiLoader(self.multi_loaders)):
-- 
2.43.0


From c0231d7365fc80da2381baeec481b7601789aecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 047/103] fix: BN calibration of a switchable batch norm
 overwrote the statistics of the full width

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 2539889..9fbef88 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -8,6 +8,7 @@ from torch import Tensor
 from torch.nn.modules.batchnorm import _BatchNorm
 from torch.utils.data import DataLoader
 
+from mmrazor.models.architectures.dynamic_ops import SwitchableBatchNorm2d
 from mmrazor.models.architectures.dynamic_ops.mixins import \
     DynamicBatchNormMixin
 
@@ -50,6 +51,11 @@ class CalibrateBNMixin:
 
         def record_input_statistics_hook(bn_module: _BatchNorm, input: Tensor,
                                          output: Tensor) -> None:
+            if isinstance(bn_module, SwitchableBatchNorm2d) and \
+                    bn_module.activated_channel_num() != \
+                    bn_module.num_features:
+                # normalized by a private candidate, which has its own hook
+                return
             mean_average_meter: AverageMeter = bn_module.__mean_average_meter__
             var_average_meter: AverageMeter = bn_module.__var_average_meter__
 
-- 
2.43.0


From b971179328412d414f3dfe9d3ba2bbe64b29aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 048/103] fix: BN calibration failed on one and three
 dimensional batch norms

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 9fbef88..5359502 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -60,8 +60,9 @@ class CalibrateBNMixin:
             var_average_meter: AverageMeter = bn_module.__var_average_meter__
 
             real_input = input[0]
-            mean = real_input.mean((0, 2, 3))
-            var = real_input.var((0, 2, 3), unbiased=True)
+            dims = [d for d in range(real_input.dim()) if d != 1]
+            mean = real_input.mean(dims)
+            var = real_input.var(dims, unbiased=True)
 
             mean_average_meter.update(mean, real_input.size(0))
             var_average_meter.update(var, real_input.size(0))
-- 
2.43.0


From f4848fa787f960062fb8f69a87ac0b0c91c31a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 049/103] fix: channel mutators had no search groups for a
 metric predictor

---
 mmrazor/models/mutators/channel_mutator/channel_mutator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutators/channel_mutator/channel_mutator.py b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
index 910992e..4d1f9bb 100644
--- a/mmrazor/models/mutators/channel_mutator/channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
@@ -250,7 +250,7 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
         return template
 
     @property
-    def search_groups(self) -> Dict[int, List]:
+    def search_groups(self) -> Dict[str, List]:
         """Search group of the supernet.
 
         Note:
@@ -262,7 +262,7 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
         Returns:
             dict: Search group.
         """
-        return self._search_groups
+        return {unit.name: [unit] for unit in self.mutable_units}
 
     # private methods
 
-- 
2.43.0


From 3f65dfed2219a6a45824631dc2e0f62994da5534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 050/103] fix: MetricPredictor could not decode the vector of a
 single search group

---
 mmrazor/models/task_modules/predictor/metric_predictor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/predictor/metric_predictor.py b/mmrazor/models/task_modules/predictor/metric_predictor.py
index 9ccc459..5346061 100644
--- a/mmrazor/models/task_modules/predictor/metric_predictor.py
+++ b/mmrazor/models/task_modules/predictor/metric_predictor.py
@@ -145,7 +145,7 @@ class MetricPredictor:
 
         start = 0
         model = {}
-        vector = np.squeeze(vector)
+        vector = np.reshape(vector, -1)
         for name, mutables in self.search_groups.items():
             if isinstance(mutables[0], OneShotMutableChannelUnit):
                 choices = mutables[0].candidate_choices
-- 
2.43.0


From b22988e3389060014db029f3850b50d2f4f62dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 051/103] fix: an MLP predictor could not load a checkpoint of
 another input width

---
 .../models/task_modules/predictor/handler/mlp_handler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/predictor/handler/mlp_handler.py b/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
index e1bd797..cee6cba 100644
--- a/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
+++ b/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
@@ -132,8 +132,13 @@ class MLPHandler(BaseHandler):
 
     def load(self, path: str) -> None:
         """Load predictor's pretrained weights."""
-        self.model.load_state_dict(
-            torch.load(path, map_location='cpu')['state_dict'])
+        state_dict = torch.load(path, map_location='cpu')['state_dict']
+        in_features = state_dict['fc1.weight'].shape[1]
+        if in_features != self.model.fc1.in_features:
+            # `fit` adapts the first layer to the data
+            self.model.fc1 = nn.Linear(in_features,
+                                       self.model.fc1.out_features)
+        self.model.load_state_dict(state_dict)
 
     def save(self, path: str) -> str:
         """Save predictor and return saved path for diff suffix."""
-- 
2.43.0


From ad5f871a6906e66b3ba7845ff5506dad4045a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 052/103] fix: the code of a subnet in MetricPredictor depended
 on the order of its keys

---
 mmrazor/models/task_modules/predictor/metric_predictor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/task_modules/predictor/metric_predictor.py b/mmrazor/models/task_modules/predictor/metric_predictor.py
index 5346061..a308560 100644
--- a/mmrazor/models/task_modules/predictor/metric_predictor.py
+++ b/mmrazor/models/task_modules/predictor/metric_predictor.py
@@ -103,6 +103,9 @@ class MetricPredictor:
             f'Length mismatch for model({len(model.keys())}) and search_groups'
             f'({len(self.search_groups.keys())}).')
 
+        if set(model) == set(self.search_groups):
+            # encoded in the order of the search groups, as in `vector2model`
+            model = {key: model[key] for key in self.search_groups}
         for key, choice in model.items():
             if isinstance(choice, DumpChosen):
                 assert choice.meta is not None, (
-- 
2.43.0


From 91841a498b49c4b422ea362a73afcb4a6f4708ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 053/103] fix: ResourceEstimator ignored its own settings
 without a per-call cfg

estimate() and estimate_separation_modules() fell back to the bare
flops_params_cfg, so input_shape, units and as_strings of the estimator had
no effect (the example of its docstring gave another result), and
estimate_separation_modules() left seperate_return behind in it.
---
 .../estimators/resource_estimator.py          | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index ac5292d..55cef0b 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -117,13 +117,12 @@ class ResourceEstimator(BaseEstimator):
         resource_metrics = dict()
         measure_latency = True if latency_cfg else False
 
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or dict())
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
 
         if latency_cfg:
             latency_cfg = {**self.latency_cfg, **latency_cfg}
@@ -162,13 +161,12 @@ class ResourceEstimator(BaseEstimator):
                 params results (string | float format) of each modules in the
                 ``flops_params_cfg['spec_modules']``.
         """
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or dict())
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
         flops_params_cfg['seperate_return'] = True
 
         assert len(flops_params_cfg['spec_modules']), (
-- 
2.43.0


From 790ca93bb952e9772aba134b9a86aea205677818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 054/103] fix: measuring latency always failed on an unknown
 argument

The defaults of the FLOPs counter, with its units, were passed on to
get_model_latency(), which takes unit.
---
 mmrazor/models/task_modules/estimators/resource_estimator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index 55cef0b..e993d7a 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -127,7 +127,9 @@ class ResourceEstimator(BaseEstimator):
         if latency_cfg:
             latency_cfg = {**self.latency_cfg, **latency_cfg}
             self._check_latency_cfg(latency_cfg)
-            latency_cfg = self._set_default_resource_params(latency_cfg)
+            latency_cfg.setdefault('input_shape', self.input_shape)
+            latency_cfg.setdefault('unit', self.units.get('latency', 'ms'))
+            latency_cfg.setdefault('as_strings', self.as_strings)
         else:
             latency_cfg = self.latency_cfg
 
-- 
2.43.0


From da16bf3d9a3211ebb964540c665a55e1178ee5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 055/103] fix: ConvTranspose2d bias FLOPs assumed a square
 output

---
 .../estimators/counters/op_counters/deconv_layer_counter.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
index 0426fbb..646365a 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
@@ -32,7 +32,7 @@ class ConvTranspose2dCounter(BaseCounter):
         bias_flops = 0
         if module.bias is not None:
             output_height, output_width = output.shape[2:]
-            bias_flops = out_channels * batch_size * output_height * output_height  # noqa: E501
+            bias_flops = out_channels * batch_size * output_height * output_width  # noqa: E501
         overall_flops = overall_conv_flops + bias_flops
 
         module.__flops__ += int(overall_flops)
-- 
2.43.0


From 605f6ebaa5ede3adb6294dc82e78edfcafd902c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 056/103] fix: Upsample FLOPs counted the first sample of a
 batch only

---
 .../counters/op_counters/upsample_layer_counter.py         | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
index 12958b6..a0c0f96 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
@@ -11,10 +11,5 @@ class UpsampleCounter(BaseCounter):
     @staticmethod
     def add_count_hook(module, input, output):
         """Calculate FLOPs and params based on the size of input & output."""
-        output_size = output[0]
-        batch_size = output_size.shape[0]
-        output_elements_count = batch_size
-        for val in output_size.shape[1:]:
-            output_elements_count *= val
-        module.__flops__ += int(output_elements_count)
+        module.__flops__ += int(output.numel())
         module.__params__ += get_model_parameters_number(module)
-- 
2.43.0


From fd2d0cab4e385585a2f0b12011f7ac774348dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 057/103] fix: the params of a module used several times were
 counted again

The FLOPs of every call add up, the parameters of a shared module do not.
---
 .../estimators/counters/flops_params_counter.py           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 4a3e44d..a9a19bf 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -417,7 +417,7 @@ def start_flops_params_count(self, disabled_counters):
                     counter = TASK_UTILS.build(
                         dict(type=counter_type, _scope_='mmrazor'))
                     handle = module.register_forward_hook(
-                        counter.add_count_hook)
+                        partial(add_count_hook, counter))
 
                     module.__flops_params_handle__ = handle
                 else:
@@ -448,6 +448,12 @@ def reset_flops_params_count(self):
 
 
 # ---- Internal functions
+def add_count_hook(counter, module, input, output):
+    """Count one call; a module used repeatedly has its params once."""
+    module.__params__ = 0
+    counter.add_count_hook(module, input, output)
+
+
 def empty_flops_params_counter_hook(module, input, output):
     """Empty flops and params variables of the module."""
     module.__flops__ += 0
-- 
2.43.0


From 222e6f7af3f99d9f43d2eb8756b7c8d0eb624f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 058/103] fix: estimating resources left methods behind on the
 model

A model could not be pickled and loaded any more after it was estimated.
---
 .../estimators/counters/flops_params_counter.py     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index a9a19bf..1bbeb8a 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -141,6 +141,7 @@ def get_model_flops_params(model,
                         str(module.__params__) + params_suffix
 
     flops_params_model.stop_flops_params_count()
+    remove_flops_params_counting_methods(flops_params_model)
 
     if seperate_return:
         return spec_modules_resources
@@ -293,10 +294,11 @@ def print_model_with_flops_params(model,
     def del_extra_repr(m):
         """Recover origin extra_repr method."""
         if hasattr(m, 'original_extra_repr'):
-            m.extra_repr = m.original_extra_repr
+            del m.extra_repr
             del m.original_extra_repr
         if hasattr(m, 'accumulate_flops'):
             del m.accumulate_flops
+            del m.accumulate_params
 
     model.apply(add_extra_repr)
     print(model, file=ost, flush=flush)
@@ -376,6 +378,15 @@ def add_flops_params_counting_methods(net_main_module):
     return net_main_module
 
 
+def remove_flops_params_counting_methods(net_main_module):
+    """Remove what `add_flops_params_counting_methods()` added."""
+    del net_main_module.start_flops_params_count
+    del net_main_module.stop_flops_params_count
+    del net_main_module.reset_flops_params_count
+    del net_main_module.compute_average_flops_params_cost
+    del net_main_module.__batch_counter__
+
+
 def compute_average_flops_params_cost(self):
     """Compute average FLOPs and Params cost.
 
-- 
2.43.0


From aecb1521601df261b25a25943922604c71900f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 059/103] fix: live dynamic ops were estimated unlike the
 subnet they stand for

The params of a DynamicLinear were those of the whole supernet layer, a
depthwise DynamicConv2d was divided by the groups of the whole layer, and
dynamic norms, BigNasConv2d and OFAConv2d were not counted at all.
---
 .../counters/op_counters/__init__.py          | 19 ++++++---
 .../op_counters/conv_layer_counter.py         | 21 +++++++++-
 .../op_counters/linear_layer_counter.py       | 12 +++++-
 .../op_counters/norm_layer_counter.py         | 40 +++++++++++++++++++
 4 files changed, 83 insertions(+), 9 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py b/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py
index 5226a70..77db3e0 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py
@@ -2,15 +2,19 @@
 from .activation_layer_counter import (ELUCounter, LeakyReLUCounter,
                                        PReLUCounter, ReLU6Counter, ReLUCounter)
 from .base_counter import BaseCounter
-from .conv_layer_counter import (Conv1dCounter, Conv2dCounter, Conv3dCounter,
-                                 DynamicConv2dCounter)
+from .conv_layer_counter import (BigNasConv2dCounter, Conv1dCounter,
+                                 Conv2dCounter, Conv3dCounter,
+                                 DynamicConv2dCounter, OFAConv2dCounter)
 from .deconv_layer_counter import ConvTranspose2dCounter
 from .linear_layer_counter import DynamicLinearCounter, LinearCounter
 from .norm_layer_counter import (BatchNorm1dCounter, BatchNorm2dCounter,
                                  BatchNorm3dCounter, DMCPBatchNorm2dCounter,
-                                 GroupNormCounter, InstanceNorm1dCounter,
-                                 InstanceNorm2dCounter, InstanceNorm3dCounter,
-                                 LayerNormCounter)
+                                 DynamicBatchNorm1dCounter,
+                                 DynamicBatchNorm2dCounter,
+                                 DynamicBatchNorm3dCounter,
+                                 DynamicLayerNormCounter, GroupNormCounter,
+                                 InstanceNorm1dCounter, InstanceNorm2dCounter,
+                                 InstanceNorm3dCounter, LayerNormCounter)
 from .pooling_layer_counter import *  # noqa: F403, F405, F401
 from .upsample_layer_counter import UpsampleCounter
 
@@ -21,5 +25,8 @@ __all__ = [
     'ConvTranspose2dCounter', 'UpsampleCounter', 'LinearCounter',
     'GroupNormCounter', 'InstanceNorm1dCounter', 'InstanceNorm2dCounter',
     'InstanceNorm3dCounter', 'LayerNormCounter', 'BaseCounter',
-    'DMCPBatchNorm2dCounter', 'DynamicConv2dCounter', 'DynamicLinearCounter'
+    'DMCPBatchNorm2dCounter', 'DynamicConv2dCounter', 'BigNasConv2dCounter',
+    'OFAConv2dCounter', 'DynamicLinearCounter', 'DynamicBatchNorm1dCounter',
+    'DynamicBatchNorm2dCounter', 'DynamicBatchNorm3dCounter',
+    'DynamicLayerNormCounter'
 ]
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
index d410e39..7f042b5 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
@@ -74,13 +74,15 @@ class DynamicConv2dCounter(ConvCounter):
         batch_size = input.shape[0]
         output_dims = list(output.shape[2:])
 
-        kernel_dims = list(module.kernel_size)
+        # the kernel size may be mutable as well
+        kernel_dims = list(module.get_dynamic_params()[0].shape[2:])
 
         if 'out_channels' in module.mutable_attrs:
             out_channels = module.mutable_attrs[
                 'out_channels'].activated_channels
             mutable_channel = list(
-                module.mutable_attrs['out_channels'].mutable_channels.values())
+                getattr(module.mutable_attrs['out_channels'],
+                        'mutable_channels', {}).values())
             if len(mutable_channel) > 0 and hasattr(
                     mutable_channel[0], 'activated_tensor_channels'):
                 out_channels = mutable_channel[0].activated_tensor_channels
@@ -93,6 +95,9 @@ class DynamicConv2dCounter(ConvCounter):
             in_channels = module.in_channels
 
         groups = module.groups
+        if groups == module.in_channels == module.out_channels:
+            # a depthwise conv has as many groups as activated channels
+            groups = in_channels
 
         filters_per_channel = out_channels / groups
         conv_per_position_flops = \
@@ -113,3 +118,15 @@ class DynamicConv2dCounter(ConvCounter):
 
         module.__flops__ += overall_flops
         module.__params__ += int(overall_params)
+
+
+@TASK_UTILS.register_module()
+class BigNasConv2dCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for BigNasConv2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class OFAConv2dCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for OFAConv2d module."""
+    pass
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
index 80c024c..e16a4e3 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
@@ -22,4 +22,14 @@ class LinearCounter(BaseCounter):
 
 @TASK_UTILS.register_module()
 class DynamicLinearCounter(LinearCounter):
-    pass
+    """FLOPs/params counter for DynamicLinear module."""
+
+    @staticmethod
+    def add_count_hook(module, input, output):
+        """Calculate FLOPs and params based on the activated features."""
+        input = input[0]
+        module.__flops__ += int(np.prod(input.shape) * output.shape[-1])
+        if module.weight.requires_grad:
+            module.__params__ += sum(
+                param.numel() for param in module.get_dynamic_params()
+                if param is not None)
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
index 54f3f26..422d1bd 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
@@ -68,6 +68,46 @@ class GroupNormCounter(BNCounter):
     pass
 
 
+class DynamicNormCounter(BNCounter):
+    """FLOPs/params counter for normalizations of dynamic channels."""
+
+    @staticmethod
+    def add_count_hook(module, input, output):
+        """Calculate FLOPs and params based on the activated features."""
+        input = input[0]
+        batch_flops = np.prod(input.shape)
+        if getattr(module, 'affine', False):
+            batch_flops *= 2
+        module.__flops__ += int(batch_flops)
+        weight, bias = module.get_dynamic_params()[-2:]
+        if weight is not None and module.weight.requires_grad:
+            module.__params__ += weight.numel() + bias.numel()
+
+
+@TASK_UTILS.register_module()
+class DynamicBatchNorm1dCounter(DynamicNormCounter):
+    """FLOPs/params counter for DynamicBatchNorm1d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class DynamicBatchNorm2dCounter(DynamicNormCounter):
+    """FLOPs/params counter for DynamicBatchNorm2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class DynamicBatchNorm3dCounter(DynamicNormCounter):
+    """FLOPs/params counter for DynamicBatchNorm3d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class DynamicLayerNormCounter(DynamicNormCounter):
+    """FLOPs/params counter for DynamicLayerNorm module."""
+    pass
+
+
 @TASK_UTILS.register_module()
 class DMCPBatchNorm2dCounter(BNCounter):
     """FLOPs/params counter for DynamicBatchNorm2d module."""
-- 
2.43.0


From 5377f3411443c9179a5019891d3912dba16fa130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 060/103] fix: EstimateResourcesHook ran an epoch early or
 never

When validation starts, runner.epoch has already been increased, while
every_n_epochs is for hooks called before that: interval=2 estimated after
epochs 1, 3, ... and never with a val_interval of 2.
---
 mmrazor/engine/hooks/estimate_resources_hook.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/hooks/estimate_resources_hook.py b/mmrazor/engine/hooks/estimate_resources_hook.py
index 28f381a..c428bc5 100644
--- a/mmrazor/engine/hooks/estimate_resources_hook.py
+++ b/mmrazor/engine/hooks/estimate_resources_hook.py
@@ -61,7 +61,8 @@ class EstimateResourcesHook(Hook):
         if not self.by_epoch:
             return
 
-        if self.every_n_epochs(runner, self.interval):
+        # `runner.epoch` counts the finished epochs once validation starts
+        if self.interval > 0 and runner.epoch % self.interval == 0:
             self.estimate_resources(runner)
 
     def after_val_iter(self,
-- 
2.43.0


From 4c4494370a07181f5a9127b017b40177486e09ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 061/103] fix: spec_modules sharing a module got wrong
 resources

The counters of a module were overwritten by converted values before
another module it is part of was accumulated, and a module used in several
places of one was accumulated several times.
---
 .../counters/flops_params_counter.py          | 43 +++++++++----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 1bbeb8a..973e010 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -316,29 +316,28 @@ def accumulate_sub_module_flops_params(model, units=None):
             Default to None.
     """
 
-    def accumulate_params(module):
-        """Accumulate params by recursion."""
+    def accumulate(module, visited):
+        """Accumulate FLOPs and params by recursion.
+
+        A module used in several places is accumulated only once.
+        """
+        if module in visited:
+            return 0, 0
+        visited.add(module)
         if is_supported_instance(module):
-            return module.__params__
-        else:
-            sum = 0
-            for m in module.children():
-                sum += accumulate_params(m)
-            return sum
-
-    def accumulate_flops(module):
-        """Accumulate flops by recursion."""
-        if is_supported_instance(module):
-            return module.__flops__ / model.__batch_counter__
-        else:
-            sum = 0
-            for m in module.children():
-                sum += accumulate_flops(m)
-            return sum
-
-    for module in model.modules():
-        _flops = accumulate_flops(module)
-        _params = accumulate_params(module)
+            return (module.__flops__ / model.__batch_counter__,
+                    module.__params__)
+        flops, params = 0, 0
+        for m in module.children():
+            sub_flops, sub_params = accumulate(m, visited)
+            flops += sub_flops
+            params += sub_params
+        return flops, params
+
+    # all of them are accumulated before any variable is overwritten, as a
+    # module may be a part of several ones.
+    resources = [(m, accumulate(m, set())) for m in model.modules()]
+    for module, (_flops, _params) in resources:
         module.__flops__ = _flops
         module.__params__ = _params
         if units is not None:
-- 
2.43.0


From 15174faade6afe5d3007300402479039da2c549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 062/103] fix: a failed estimate left its counters on the model

They kept counting in training and, in the next estimate, counted for
counters disabled there.
---
 .../counters/flops_params_counter.py          | 125 +++++++++---------
 1 file changed, 65 insertions(+), 60 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 973e010..01d7bfe 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -81,67 +81,72 @@ def get_model_flops_params(model,
                              '`spec_modules` are not empty.')
 
     flops_params_model = add_flops_params_counting_methods(model)
-    flops_params_model.eval()
-    flops_params_model.start_flops_params_count(disabled_counters)
-    if input_constructor:
-        input = input_constructor(input_shape)
-        _ = flops_params_model(**input)
-    else:
-        try:
-            batch = torch.ones(()).new_empty(
-                tuple(input_shape),
-                dtype=next(flops_params_model.parameters()).dtype,
-                device=next(flops_params_model.parameters()).device)
-        except StopIteration:
-            # Avoid StopIteration for models which have no parameters,
-            # like `nn.Relu()`, `nn.AvgPool2d`, etc.
-            batch = torch.ones(()).new_empty(tuple(input_shape))
-
-        _ = flops_params_model(batch)
-
-    flops_count, params_count = \
-        flops_params_model.compute_average_flops_params_cost()
-
-    if print_per_layer_stat:
-        print_model_with_flops_params(
-            flops_params_model,
-            flops_count,
-            params_count,
-            ost=ost,
-            flush=flush)
-
-    if units is not None:
-        flops_count = params_units_convert(flops_count, units['flops'])
-        params_count = params_units_convert(params_count, units['params'])
+    try:
+        flops_params_model.eval()
+        flops_params_model.start_flops_params_count(disabled_counters)
+        if input_constructor:
+            input = input_constructor(input_shape)
+            _ = flops_params_model(**input)
+        else:
+            try:
+                batch = torch.ones(()).new_empty(
+                    tuple(input_shape),
+                    dtype=next(flops_params_model.parameters()).dtype,
+                    device=next(flops_params_model.parameters()).device)
+            except StopIteration:
+                # Avoid StopIteration for models which have no parameters,
+                # like `nn.Relu()`, `nn.AvgPool2d`, etc.
+                batch = torch.ones(()).new_empty(tuple(input_shape))
+
+            _ = flops_params_model(batch)
+
+        flops_count, params_count = \
+            flops_params_model.compute_average_flops_params_cost()
+
+        if print_per_layer_stat:
+            print_model_with_flops_params(
+                flops_params_model,
+                flops_count,
+                params_count,
+                ost=ost,
+                flush=flush)
 
-    if as_strings:
-        flops_suffix = ' ' + units['flops'] + 'FLOPs' if units else ' FLOPs'
-        params_suffix = ' ' + units['params'] if units else ''
-
-    if len(spec_modules):
-        flops_count, params_count = 0.0, 0.0
-        module_names = [name for name, _ in flops_params_model.named_modules()]
-        for module in spec_modules:
-            assert module in module_names, \
-                f'All modules in spec_modules should be in the measured ' \
-                f'flops_params_model. Got module `{module}` in spec_modules.'
-        spec_modules_resources: Dict[str, dict] = dict()
-        accumulate_sub_module_flops_params(flops_params_model, units=units)
-        for name, module in flops_params_model.named_modules():
-            if name in spec_modules:
-                spec_modules_resources[name] = dict()
-                spec_modules_resources[name]['flops'] = module.__flops__
-                spec_modules_resources[name]['params'] = module.__params__
-                flops_count += module.__flops__
-                params_count += module.__params__
-                if as_strings:
-                    spec_modules_resources[name]['flops'] = \
-                        str(module.__flops__) + flops_suffix
-                    spec_modules_resources[name]['params'] = \
-                        str(module.__params__) + params_suffix
-
-    flops_params_model.stop_flops_params_count()
-    remove_flops_params_counting_methods(flops_params_model)
+        if units is not None:
+            flops_count = params_units_convert(flops_count, units['flops'])
+            params_count = params_units_convert(params_count, units['params'])
+
+        if as_strings:
+            flops_suffix = (' ' + units['flops'] if units else ' ') + 'FLOPs'
+            params_suffix = ' ' + units['params'] if units else ''
+
+        if len(spec_modules):
+            flops_count, params_count = 0.0, 0.0
+            module_names = [
+                name for name, _ in flops_params_model.named_modules()
+            ]
+            for module in spec_modules:
+                assert module in module_names, \
+                    f'All modules in spec_modules should be in the measured ' \
+                    f'flops_params_model. Got module `{module}` in ' \
+                    f'spec_modules.'
+            spec_modules_resources: Dict[str, dict] = dict()
+            accumulate_sub_module_flops_params(flops_params_model, units=units)
+            for name, module in flops_params_model.named_modules():
+                if name in spec_modules:
+                    spec_modules_resources[name] = dict()
+                    spec_modules_resources[name]['flops'] = module.__flops__
+                    spec_modules_resources[name]['params'] = module.__params__
+                    flops_count += module.__flops__
+                    params_count += module.__params__
+                    if as_strings:
+                        spec_modules_resources[name]['flops'] = \
+                            str(module.__flops__) + flops_suffix
+                        spec_modules_resources[name]['params'] = \
+                            str(module.__params__) + params_suffix
+    finally:
+        # leave nothing behind, whatever happens in between
+        flops_params_model.stop_flops_params_count()
+        remove_flops_params_counting_methods(flops_params_model)
 
     if seperate_return:
         return spec_modules_resources
-- 
2.43.0


From d88830c5230cc31b3b910a93d54d3b842a882e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 063/103] fix: DynamicLayerNorm could not stand for the
 LayerNorm it came from

It crashed without a registered mutable and on inputs without exactly three
dimensions, flattened the weight of a shape of several dimensions, and
forgot its own shape in the first forward, so that mutables could no longer
be registered.
---
 .../dynamic_ops/bricks/dynamic_norm.py           | 16 ++++------------
 .../mixins/dynamic_layernorm_mixins.py           |  5 ++++-
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
index eb5dd3b..d509c98 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
@@ -244,20 +244,12 @@ class DynamicLayerNorm(LayerNorm, DynamicLayerNormMixin):
     def forward(self, input: Tensor) -> Tensor:
         """Slice the parameters according to `mutable_num_channels`, and
         forward."""
-        self._check_input_dim(input)
-
         weight, bias = self.get_dynamic_params()
-        self.normalized_shape = (
-            self.mutable_num_features.activated_channels, )
-
-        return F.layer_norm(input, self.normalized_shape, weight, bias,
-                            self.eps)
+        normalized_shape = self.normalized_shape
+        if self.mutable_num_features is not None:
+            normalized_shape = (self.mutable_num_features.activated_channels, )
 
-    def _check_input_dim(self, input: Tensor) -> None:
-        """Check if input dimension is valid."""
-        if input.dim() != 3:
-            raise ValueError('expected 3D input (got {}D input)'.format(
-                input.dim()))
+        return F.layer_norm(input, normalized_shape, weight, bias, self.eps)
 
 
 class DynamicSyncBatchNorm(nn.SyncBatchNorm, DynamicBatchNormMixin):
diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
index c513d41..fcf7073 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
@@ -107,6 +107,9 @@ class DynamicLayerNormMixin(DynamicChannelMixin):
                 Optional[Tensor]]: Sliced running_mean, running_var, weight and
                 bias.
         """
+        if 'num_features' not in self.mutable_attrs:
+            return self.weight, self.bias
+
         out_mask = self._get_num_features_mask()
 
         if self.elementwise_affine:
@@ -132,7 +135,7 @@ class DynamicLayerNormMixin(DynamicChannelMixin):
             num_features = self.mutable_attrs['num_features'].current_mask.sum(
             ).item()
         else:
-            num_features = self.num_features
+            num_features = self.normalized_shape
 
         static_ln = self.static_op_factory(
             normalized_shape=num_features,
-- 
2.43.0


From c577ae307c8e21a6386e296a56e84939bc70901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 064/103] fix: resuming LSQ training threw the learned scales
 away

The first batch after resuming was taken for the first one of the training,
which initializes the scales.
---
 mmrazor/engine/runner/quantization_loops.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index 58d91cf..f0df520 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -163,9 +163,14 @@ class LSQEpochBasedLoop(QATEpochBasedLoop):
             freeze_bn_begin=freeze_bn_begin,
             dynamic_intervals=dynamic_intervals)
 
-        self.is_first_batch = True
         self.distributed = is_distributed()
 
+    @property
+    def is_first_batch(self):
+        """Whether the next iteration is the first one of the training, also
+        if the training is resumed."""
+        return self._iter == 0
+
     def prepare_for_run_epoch(self):
         """Toggle the state of the observers and fake quantizers before qat
         training."""
@@ -186,13 +191,14 @@ class LSQEpochBasedLoop(QATEpochBasedLoop):
         self.runner.model.train()
 
         for idx, data_batch in enumerate(self.dataloader):
-            if self.is_first_batch:
+            is_first_batch = self.is_first_batch
+            if is_first_batch:
                 # lsq observer init
                 self.runner.model.apply(enable_static_estimate)
 
             self.run_iter(idx, data_batch)
 
-            if self.is_first_batch:
+            if is_first_batch:
                 # In the first batch, scale in LearnableFakeQuantize is
                 # calculated through lsq observer. As the values of `scale` of
                 # different observers in different rank are usually different,
@@ -202,7 +208,6 @@ class LSQEpochBasedLoop(QATEpochBasedLoop):
                         self.runner.model.parameters(), op='mean')
 
                 # Change back to param learning mode
-                self.is_first_batch = False
                 self.runner.model.apply(enable_param_learning)
 
         self.runner.model.sync_qparams(src_mode='loss')
-- 
2.43.0


From 5385babb84d23bb78e29f8a5738c6ba886d891be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 065/103] fix: QATValLoop did not return the metrics of the
 quantized model

`PTQLoop` reports what it returns, thus those of the float model only.
---
 mmrazor/engine/runner/quantization_loops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index f0df520..75ad294 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -277,17 +277,17 @@ class QATValLoop(ValLoop):
 
         # compute metrics
         metrics = self.evaluator.evaluate(len(self.dataloader.dataset))
-        qat_metrics = dict()
+        ori_metrics = dict()
         for key, value in metrics.items():
             qat_key = 'qat.' + key
             ori_key = 'original.' + key
-            qat_metrics[ori_key] = value
+            ori_metrics[ori_key] = value
             self.runner.message_hub.log_scalars.pop(f'val/{qat_key}', None)
 
-        self.runner.call_hook('after_val_epoch', metrics=qat_metrics)
+        self.runner.call_hook('after_val_epoch', metrics=ori_metrics)
 
         self.runner.call_hook('after_val')
-        return qat_metrics
+        return {**qat_metrics, **ori_metrics}
 
     @torch.no_grad()
     def run_iter(self, idx, data_batch: Sequence[dict], model):
-- 
2.43.0


From 3ff9ce8c470b940f35f70101366be34e57daf5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 066/103] fix: convert_batchnorm2d forgot the weights and
 statistics

---
 mmrazor/models/quantizers/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/models/quantizers/base.py b/mmrazor/models/quantizers/base.py
index 78c8163..e275026 100644
--- a/mmrazor/models/quantizers/base.py
+++ b/mmrazor/models/quantizers/base.py
@@ -52,6 +52,8 @@ class BaseQuantizer(BaseModule):
                     bn = nn.BatchNorm2d(child.num_features, child.eps,
                                         child.momentum, child.affine,
                                         child.track_running_stats)
+                    bn.load_state_dict(child.state_dict())
+                    bn.train(child.training)
                     setattr(module, child_name, bn)
                 else:
                     traverse(child)
-- 
2.43.0


From edc3ab1384434c9c4b4637fccebee6e8072e8658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 067/103] fix: sync_qparams crashed on an empty submodule

---
 mmrazor/models/algorithms/quantization/mm_architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index ce6d926..ecbc71a 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -123,7 +123,7 @@ class MMArchitectureQuant(BaseAlgorithm):
 
         def traverse(module, prefix):
             for name, child in module._modules.items():
-                if module is None:
+                if child is None:
                     continue
                 child_name = f'{prefix}{name}'
                 if isinstance(child, FakeQuantizeBase):
-- 
2.43.0


From bfaabfd6321f5aeda63cb8a8b744a0c562c45642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 068/103] fix: deleting fakequants before a node deleted others
 or crashed

---
 .../task_modules/tracer/fx/graph_utils.py     | 76 +++++++++----------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/fx/graph_utils.py b/mmrazor/models/task_modules/tracer/fx/graph_utils.py
index ca12917..588edf1 100644
--- a/mmrazor/models/task_modules/tracer/fx/graph_utils.py
+++ b/mmrazor/models/task_modules/tracer/fx/graph_utils.py
@@ -62,18 +62,33 @@ def recursive_find_erased_nodes(node, prepared_model):
         return [node]
 
     nodes_to_erase = []
-    for prev_node in node.args:
-        if isinstance(prev_node, Node):
-            nodes_to_erase.extend(
-                recursive_find_erased_nodes(prev_node, prepared_model))
-    for prev_node in node.kwargs.values():
-        if isinstance(prev_node, Node):
-            nodes_to_erase.extend(
-                recursive_find_erased_nodes(prev_node, prepared_model))
+    # including the nodes in containers, such as the inputs of `torch.cat`
+    for prev_node in node.all_input_nodes:
+        for to_erase in recursive_find_erased_nodes(prev_node, prepared_model):
+            # a fakequant can be reached in several ways
+            if to_erase not in nodes_to_erase:
+                nodes_to_erase.append(to_erase)
 
     return nodes_to_erase
 
 
+def _del_fakequant_before_nodes(prepared_model, graph, target_nodes):
+    """Delete the fakequants found before the target nodes in the graph."""
+    # Find all of them before deleting any: once the fakequant before a node
+    # is deleted, the one further ahead would be found from other nodes.
+    nodes_to_erase: List[Node] = []
+    for node in target_nodes:
+        for to_erase in recursive_find_erased_nodes(node, prepared_model):
+            if to_erase not in nodes_to_erase:
+                nodes_to_erase.append(to_erase)
+
+    for to_erase in nodes_to_erase:
+        assert len(to_erase.args) == 1
+        to_erase.replace_all_uses_with(to_erase.args[0])
+        graph.erase_node(to_erase)
+        delattr(prepared_model, to_erase.target)
+
+
 def del_fakequant_before_op(prepared_model,
                             target_ops: Tuple,
                             inplace: bool = True):
@@ -94,17 +109,8 @@ def del_fakequant_before_op(prepared_model,
     if not inplace:
         prepared_model = copy.deepcopy(prepared_model)
     new_graph = copy.deepcopy(prepared_model.graph)
-    for node in new_graph.nodes:
-        if node.op in target_ops:
-            nodes_to_erase: List[Node] = recursive_find_erased_nodes(
-                node, prepared_model)
-            for to_erase in nodes_to_erase:
-                assert to_erase.op == 'call_module' and isinstance(
-                    _get_attrs(prepared_model, to_erase.target),
-                    FakeQuantizeBase) and len(to_erase.args) == 1
-                to_erase.replace_all_uses_with(to_erase.args[0])
-                new_graph.erase_node(to_erase)
-                delattr(prepared_model, to_erase.target)
+    target_nodes = [node for node in new_graph.nodes if node.op in target_ops]
+    _del_fakequant_before_nodes(prepared_model, new_graph, target_nodes)
 
     new_graph.lint()
     prepared_model.graph = new_graph
@@ -172,17 +178,11 @@ def del_fakequant_before_method(prepared_model,
     if not inplace:
         prepared_model = copy.deepcopy(prepared_model)
     new_graph = copy.deepcopy(prepared_model.graph)
-    for node in new_graph.nodes:
-        if node.op == 'call_method' and node.target in method_patterns:
-            nodes_to_erase: List[Node] = recursive_find_erased_nodes(
-                node, prepared_model)
-            for to_erase in nodes_to_erase:
-                assert to_erase.op == 'call_module' and isinstance(
-                    _get_attrs(prepared_model, to_erase.target),
-                    FakeQuantizeBase) and len(to_erase.args) == 1
-                to_erase.replace_all_uses_with(to_erase.args[0])
-                new_graph.erase_node(to_erase)
-                delattr(prepared_model, to_erase.target)
+    target_nodes = [
+        node for node in new_graph.nodes
+        if node.op == 'call_method' and node.target in method_patterns
+    ]
+    _del_fakequant_before_nodes(prepared_model, new_graph, target_nodes)
 
     new_graph.lint()
     prepared_model.graph = new_graph
@@ -251,17 +251,11 @@ def del_fakequant_before_function(prepared_model,
     if not inplace:
         prepared_model = copy.deepcopy(prepared_model)
     new_graph = copy.deepcopy(prepared_model.graph)
-    for node in new_graph.nodes:
-        if node.op == 'call_function' and node.target in function_patterns:
-            nodes_to_erase: List[Node] = recursive_find_erased_nodes(
-                node, prepared_model)
-            for to_erase in nodes_to_erase:
-                assert to_erase.op == 'call_module' and isinstance(
-                    _get_attrs(prepared_model, to_erase.target),
-                    FakeQuantizeBase) and len(to_erase.args) == 1
-                to_erase.replace_all_uses_with(to_erase.args[0])
-                new_graph.erase_node(to_erase)
-                delattr(prepared_model, to_erase.target)
+    target_nodes = [
+        node for node in new_graph.nodes
+        if node.op == 'call_function' and node.target in function_patterns
+    ]
+    _del_fakequant_before_nodes(prepared_model, new_graph, target_nodes)
 
     new_graph.lint()
     prepared_model.graph = new_graph
-- 
2.43.0


From 9f6f8a4fb477d400723af9740e5a11d0cdba4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 069/103] fix: replace_fakequant failed for per-channel and
 fixed qparams

and truncated learned zero points.
---
 mmrazor/structures/quantization/qconfig.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mmrazor/structures/quantization/qconfig.py b/mmrazor/structures/quantization/qconfig.py
index ab682be..7d6d62a 100644
--- a/mmrazor/structures/quantization/qconfig.py
+++ b/mmrazor/structures/quantization/qconfig.py
@@ -184,12 +184,21 @@ class QConfigHandler():
         if update_qparams:
             device = fake_quant_org.scale.device
             fake_quant_ins = fake_quant_wrapper().to(device)
-            fake_quant_ins.scale.copy_(fake_quant_org.scale)
-            fake_quant_ins.zero_point.copy_(fake_quant_org.zero_point)
+            scale = fake_quant_org.scale.detach()
+            # learnable zero points are not integers
+            zero_point = fake_quant_org.zero_point.detach().round().clamp(
+                fake_quant_ins.quant_min, fake_quant_ins.quant_max)
+            fake_quant_ins.scale.resize_(scale.shape).copy_(scale)
+            fake_quant_ins.zero_point.resize_(
+                zero_point.shape).copy_(zero_point)
             obs = fake_quant_ins.activation_post_process
             obs_org = fake_quant_org.activation_post_process
-            obs.min_val.resize_(obs_org.min_val.shape).copy_(obs_org.min_val)
-            obs.max_val.resize_(obs_org.max_val.shape).copy_(obs_org.max_val)
+            # observers of fixed qparams observe nothing
+            if hasattr(obs_org, 'min_val'):
+                obs.min_val.resize_(obs_org.min_val.shape).copy_(
+                    obs_org.min_val)
+                obs.max_val.resize_(obs_org.max_val.shape).copy_(
+                    obs_org.max_val)
             return fake_quant_ins
         else:
             return fake_quant_wrapper
-- 
2.43.0


From 994ef51780d8a19c4048193a4a1c03ad959bc8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 070/103] fix: deployed models re-estimated the scales of the
 weights

Estimated from the quantized weights, they differ from the scales the model
is trained with, so the deployed model differs from the trained one.
---
 mmrazor/models/quantizers/native_quantizer.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index 7b6f2f9..89931f3 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -5,8 +5,7 @@ import torch
 from mmengine.config import Config
 
 try:
-    from torch.ao.quantization import (disable_observer, enable_fake_quant,
-                                       enable_observer)
+    from torch.ao.quantization import disable_observer, enable_fake_quant
     from torch.ao.quantization.fx import prepare
     from torch.ao.quantization.fx.graph_module import ObservedGraphModule
     from torch.ao.quantization.qconfig_mapping import (
@@ -23,7 +22,6 @@ except ImportError:
     ObservedGraphModule = get_placeholder('torch>=1.13')
     enable_fake_quant = get_placeholder('torch>=1.13')
     disable_observer = get_placeholder('torch>=1.13')
-    enable_observer = get_placeholder('torch>=1.13')
     prepare = get_placeholder('torch>=1.13')
     QConfigMapping = get_placeholder('torch>=1.13')
     _fuse_fx = get_placeholder('torch>=1.13')
@@ -310,13 +308,14 @@ class TorchNativeQuantizer(BaseQuantizer):
                             new_child = type(child).from_float(float_child).to(
                                 device)
 
-                        # because weight fakequants and observers are replaced
-                        # with base fakequants and base observers, some
-                        # initialized args need to be update by running
-                        # weight_fake_quant.
-                        enable_observer(new_child)
-                        new_child.weight_fake_quant(new_child.weight)
-                        disable_observer(new_child)
+                        # weight fakequants and observers are replaced with
+                        # base fakequants and base observers, which keep the
+                        # qparams the model is trained with.
+                        new_child.weight_fake_quant = \
+                            self.qconfig.replace_fakequant(
+                                weight_fakequant, self.qconfig.w_qscheme)
+                        new_child.weight_fake_quant.to(device)
+                        new_child.apply(disable_observer)
                     else:
                         new_child = float_child.to(device)
                     setattr(module, name, new_child)
-- 
2.43.0


From 68b68514365536cffd286083a5bda2346c469e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 071/103] fix: quantizers failed to prepare a model with torch
 2

The first argument of `_fuse_fx` has another name there.
---
 mmrazor/models/quantizers/native_quantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index 89931f3..e405db8 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -234,7 +234,7 @@ class TorchNativeQuantizer(BaseQuantizer):
         self.sync_module_training_mode(graph_module, mode=True)
 
         graph_module = _fuse_fx(
-            graph_module=graph_module,
+            graph_module,
             is_qat=True,
             backend_config=self.backend_config)
         prepared = prepare(
-- 
2.43.0


From 51fb650993f96bee715c4dfc26378cb7528b669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 072/103] fix: AcademicQuantizer failed to prepare a model with
 torch 2

The first argument of `_fuse_fx` has another name there.
---
 mmrazor/models/quantizers/academic_quantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/academic_quantizer.py b/mmrazor/models/quantizers/academic_quantizer.py
index 0dbe6dc..12ffca7 100644
--- a/mmrazor/models/quantizers/academic_quantizer.py
+++ b/mmrazor/models/quantizers/academic_quantizer.py
@@ -109,7 +109,7 @@ class AcademicQuantizer(BaseQuantizer):
         self.sync_module_training_mode(graph_module, mode=True)
 
         graph_module = _fuse_fx(
-            graph_module=graph_module,
+            graph_module,
             is_qat=True,
             fuse_custom_config=fuse_custom_config)
         prepared = prepare(
-- 
2.43.0


From 500ab3a150d46a6d7248ab790767d01b98364d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 073/103] fix: DSNAS leaves the supernet when training resumes
 after the finetune stage began

---
 mmrazor/models/algorithms/nas/dsnas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index aeccb83..205a2b7 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -129,7 +129,7 @@ class DSNAS(BaseAlgorithm):
             cur_epoch = self.message_hub.get_info('epoch')
             need_update_mutator = self.need_update_mutator(cur_epoch)
 
-            if cur_epoch == self.finetune_epochs and self.is_supernet:
+            if cur_epoch >= self.finetune_epochs and self.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.mutator.arch_params.items():
                     broadcast(v.data, src=0)
@@ -285,7 +285,7 @@ class DSNASDDP(MMDistributedDataParallel):
             need_update_mutator = self.module.need_update_mutator(cur_epoch)
 
             # TODO process the input
-            if cur_epoch == self.module.finetune_epochs and \
+            if cur_epoch >= self.module.finetune_epochs and \
                self.module.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.module.mutator.arch_params.items():
-- 
2.43.0


From 1bfca827123ab8ad11c66925aeb83baf4f4fa94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 074/103] fix: importance of channels read at several places or
 through several inputs each

---
 .../pruning/group_fisher/unit.py              | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index 1c9128b..ac71afe 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -154,7 +154,8 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         """Accumulate the unit's fisher info of this batch."""
         with torch.no_grad():
             fisher: torch.Tensor = 0
-            for module in self.input_related_dynamic_ops:
+            # a module may read the unit at several places
+            for module in dict.fromkeys(self.input_related_dynamic_ops):
                 fisher = fisher + self._fisher_of_a_module(module)
             return (fisher**2).sum(0)  # shape: [C]
 
@@ -181,11 +182,16 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         assert isinstance(fisher_sum, torch.Tensor)
         # expand to full num_channel
         batch_size = fisher_sum.shape[0]
-        mask = self.mutable_channel.current_mask.unsqueeze(0).expand(
-            [batch_size, self.num_channels])
-        zeros = fisher_sum.new_zeros([batch_size, self.num_channels])
-        fisher_sum = zeros.masked_scatter_(mask, fisher_sum)
-        return fisher_sum
+        mask = module.get_mutable_attr('in_channels').current_mask.bool()
+        full = fisher_sum.new_zeros([batch_size, mask.numel()])
+        full[:, mask] = fisher_sum
+        # the unit may own only a part of the input channels of the module
+        indexes = dict.fromkeys((channel.start, channel.end)
+                                for channel in self.input_related
+                                if channel.module is module)
+        return sum(full[:, start:end].reshape(
+            [batch_size, self.num_channels, -1]).sum(-1)
+                   for start, end in indexes)
 
     @torch.no_grad()
     def _get_normalized_fisher_info(self,
@@ -217,8 +223,12 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         delta_flop = 0
         for module in self.output_related_dynamic_ops:
             delta_flop += module.delta_flop_of_a_out_channel
-        for module in self.input_related_dynamic_ops:
-            delta_flop += module.delta_flop_of_a_in_channel
+        for channel in self.input_related:
+            if isinstance(channel.module, GroupFisherMixin):
+                # e.g. a linear layer has several inputs of each channel
+                ratio = channel.num_channels / self.num_channels
+                delta_flop += \
+                    channel.module.delta_flop_of_a_in_channel * ratio
         return delta_flop
 
     @property
-- 
2.43.0


From 19f6bcc41edb70e9728e4ea9400b282e04cb6e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 075/103] fix: group fisher does not prune when there is no
 valid importance, however large the least one is

---
 mmrazor/implementations/pruning/group_fisher/mutator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/mutator.py b/mmrazor/implementations/pruning/group_fisher/mutator.py
index d9e521a..0962a9f 100644
--- a/mmrazor/implementations/pruning/group_fisher/mutator.py
+++ b/mmrazor/implementations/pruning/group_fisher/mutator.py
@@ -56,8 +56,8 @@ class GroupFisherChannelMutator(ChannelMutator[GroupFisherChannelUnit]):
     def try_prune(self) -> None:
         """Prune the channel with the minimum fisher unless it is the last
         channel of the current layer."""
-        min_imp = 1e5
-        min_unit = self.mutable_units[0]
+        min_imp = float('inf')
+        min_unit = None
         for unit in self.mutable_units:
             if unit.mutable_channel.activated_channels > 1:
                 imp = unit.importance()
@@ -70,7 +70,7 @@ class GroupFisherChannelMutator(ChannelMutator[GroupFisherChannelUnit]):
                 if imp.min() < min_imp:
                     min_imp = imp.min().item()
                     min_unit = unit
-        if min_unit.try_to_prune_min_channel():
+        if min_unit is not None and min_unit.try_to_prune_min_channel():
             if dist.get_rank() == 0:
                 print_log(
                     f'{min_unit.name} prunes a channel with min imp = {min_imp}'  # noqa
-- 
2.43.0


From 31ed933cd1bb009b96b8c833ba5c02cad98c7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 076/103] fix: group fisher of linear layers takes the gradient
 of the input, not of the bias

---
 .../implementations/pruning/group_fisher/ops.py  | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/ops.py b/mmrazor/implementations/pruning/group_fisher/ops.py
index 35dbbd7..95abf9c 100644
--- a/mmrazor/implementations/pruning/group_fisher/ops.py
+++ b/mmrazor/implementations/pruning/group_fisher/ops.py
@@ -132,16 +132,28 @@ class GroupFisherLinear(DynamicLinear, GroupFisherMixin):
         super().__init__(*args, **kwargs)
         self._init()
 
+    def backward_hook_wrapper(self):
+        """Wrap the hook used in backward."""
+
+        def backward_hook(module: GroupFisherMixin, grad_in, grad_out):
+            # a linear layer with bias computes addmm(bias, input, weight)
+            index = 0 if module.bias is None else 1
+            module.recorded_grad.insert(0, grad_in[index])
+
+        return backward_hook
+
     @property
     def delta_flop_of_a_out_channel(self):
         """Calculate the summation of flops when prune an out_channel."""
-        in_c = self.mutable_attrs['in_channels'].current_mask.float().sum()
+        in_c = self.get_mutable_attr(
+            'in_channels').current_mask.float().sum()
         return in_c * len(self.recorded_out_shape)
 
     @property
     def delta_flop_of_a_in_channel(self):
         """Calculate the summation of flops when prune an in_channel."""
-        out_c = self.mutable_attrs['out_channels'].current_mask.float().sum()
+        out_c = self.get_mutable_attr(
+            'out_channels').current_mask.float().sum()
         return out_c * len(self.recorded_out_shape)
 
     @property
-- 
2.43.0


From 9fbce17bdafe068cfb775e56cebae5da60aeb193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 077/103] fix: layers without affine parameters can be expanded

---
 mmrazor/models/utils/expandable_utils/ops.py |  5 +++--
 mmrazor/models/utils/utils.py                | 15 ++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/mmrazor/models/utils/expandable_utils/ops.py b/mmrazor/models/utils/expandable_utils/ops.py
index f2bc2b0..3409bb3 100644
--- a/mmrazor/models/utils/expandable_utils/ops.py
+++ b/mmrazor/models/utils/expandable_utils/ops.py
@@ -233,6 +233,7 @@ class ExpandableBatchNorm2d(dynamic_ops.DynamicBatchNorm2d, ExpandableMixin):
         if module.running_var is not None:
             module.running_var.data = self.expand_bias(module.running_var,
                                                        self.running_var)
-        module.weight.data = self.expand_bias(module.weight, self.weight)
-        module.bias.data = self.expand_bias(module.bias, self.bias)
+        if module.affine:
+            module.weight.data = self.expand_bias(module.weight, self.weight)
+            module.bias.data = self.expand_bias(module.bias, self.bias)
         return module
diff --git a/mmrazor/models/utils/utils.py b/mmrazor/models/utils/utils.py
index 752c14d..a0d3088 100644
--- a/mmrazor/models/utils/utils.py
+++ b/mmrazor/models/utils/utils.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 from contextlib import contextmanager
+from itertools import chain
 from typing import List, Union
 
 import torch
@@ -10,15 +11,15 @@ def get_module_device(module: nn.Module) -> torch.device:
     """Get the device of a module.
 
     Args:
-        module (nn.Module): A module contains the parameters.
+        module (nn.Module): A module contains parameters or buffers.
     """
-    try:
-        next(module.parameters())
-    except StopIteration as e:
-        raise ValueError('The input module should contain parameters.') from e
+    # e.g. a norm layer without affine parameters has buffers only
+    tensor = next(chain(module.parameters(), module.buffers()), None)
+    if tensor is None:
+        raise ValueError('The input module should contain parameters.')
 
-    if next(module.parameters()).is_cuda:
-        return next(module.parameters()).get_device()
+    if tensor.is_cuda:
+        return tensor.get_device()
 
     return torch.device('cpu')
 
-- 
2.43.0


From 1ab4e05370eb989587eaa15cb0571d165678750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 078/103] fix: DMCP widths are rounded instead of read as
 ratios

---
 .../models/mutators/channel_mutator/dmcp_channel_mutator.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py b/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
index de7bbc4..a5b56bb 100644
--- a/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
@@ -174,5 +174,7 @@ class DMCPChannelMutator(ChannelMutator[DMCPChannelUnit]):
                 # allow optional target_prune_ratio
                 continue
             choice = choices[str(group_id)]
-            module.current_choice = choice
+            # the expected number of channels is a fractional tensor, which
+            # must not be taken for a ratio.
+            module.current_choice = int(round(float(choice)))
             module.mutable_channel.activated_tensor_channels = choice
-- 
2.43.0


From 3c3a5bba9c17bb88ff8588a80e2133afa995e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 079/103] fix: the DMCP hook can export the expected
 sub-network

---
 mmrazor/engine/hooks/dmcp_subnet_hook.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/hooks/dmcp_subnet_hook.py b/mmrazor/engine/hooks/dmcp_subnet_hook.py
index 5c3186f..cf2d310 100644
--- a/mmrazor/engine/hooks/dmcp_subnet_hook.py
+++ b/mmrazor/engine/hooks/dmcp_subnet_hook.py
@@ -2,6 +2,7 @@
 import json
 import os
 
+import torch
 from mmengine.hooks import Hook
 from mmengine.registry import HOOKS
 
@@ -62,7 +63,10 @@ class DMCPSubnetHook(Hook):
                 cur_flops = model.calc_current_flops()
 
             if i == num_sample:
-                model.set_subnet(mode='expected', arch_train=False)
+                # the widths must not carry the graph of the arch params,
+                # as the model is copied when it is exported.
+                with torch.no_grad():
+                    model.set_subnet(mode='expected', arch_train=False)
                 save_path = os.path.join(root_dir, 'excepted_ch.json')
                 runner.logger.info(
                     f'Excepted sample(ES) arch with FlOP(MB):{cur_flops}')
-- 
2.43.0


From 950dc41b9423c070a6c3be977e6975591bd22c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 080/103] fix: inputs of linear layers with more than three
 dimensions

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 2 ++
 mmrazor/implementations/quantization/gptq/gptq.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 0f11b17..f8a7b03 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -47,6 +47,8 @@ class SparseGptMixIn(ModuleProtocol):
         """Return input with shape (B N C)"""
         if len(input.shape) == 2:  # N C
             input = input.unsqueeze(0)  # 1 N C
+        elif len(input.shape) > 3:  # B ... C
+            input = input.flatten(1, -2)  # B N C
         return input
 
     # compute hessian
diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 84cfd3a..6dff872 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -69,6 +69,8 @@ class GPTQMixIn(ModuleProtocol):
         """Return input with shape (B N C)"""
         if len(input.shape) == 2:  # N C
             input = input.unsqueeze(0)  # 1 N C
+        elif len(input.shape) > 3:  # B ... C
+            input = input.flatten(1, -2)  # B N C
         return input
 
     # compute hessian
-- 
2.43.0


From 798665156da5b8b02891abcfc4bb4f926109603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 081/103] fix: dilation of convolutions in the hessian

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 5 ++++-
 mmrazor/implementations/quantization/gptq/ops.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index f8a7b03..e05b16a 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -275,6 +275,9 @@ class SparseGptConv2d(DynamicConv2d, SparseGptMixIn):
         """Format input shape."""
         # input B C H W
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=self.padding,
             stride=self.stride)  # B C D
         return input.transpose(-1, -2)
diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index b8c1394..5853f94 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -561,6 +561,9 @@ class GPTQConv2d(DynamicConv2d, GPTQMixIn):
         """Format input shape."""
         # input B C H W
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=self.padding,
             stride=self.stride)  # B C D
         return input.transpose(-1, -2)
-- 
2.43.0


From 45fab628697f3365916e5c51a7ed21046a1581de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 082/103] fix: a hessian starts anew when it is initialized
 again

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 1 +
 mmrazor/implementations/quantization/gptq/gptq.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index e05b16a..5563d91 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -122,6 +122,7 @@ class SparseGptMixIn(ModuleProtocol):
 
     def init_hessian(self, device=None):
         """Init hessian."""
+        self.hessian_batch = 0
         if dist.is_initialized():
             if dist.get_rank() == 0:
                 self._hessian = torch.zeros([self.columns, self.columns],
diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 6dff872..12956ad 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -144,6 +144,7 @@ class GPTQMixIn(ModuleProtocol):
 
     def init_hessian(self, device=None):
         """Init hessian."""
+        self.hessian_batch = 0
         if dist.is_initialized():
             if dist.get_rank() == 0:
                 self._hessian = torch.zeros([self.columns, self.columns],
-- 
2.43.0


From 69790eb4a74a6560403c483c108197e74a065280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 083/103] fix: pruning and quantizing do not change the hessian
 or the weights read

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 4 ++--
 mmrazor/implementations/quantization/gptq/gptq.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 5563d91..9124ffe 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -144,9 +144,9 @@ class SparseGptMixIn(ModuleProtocol):
             # Converted from https://github.com/ist-daslab/sparsegpt
 
             assert self.hessian is not None
-            W: torch.Tensor = self.weight_matrix.float()  # out in
+            W: torch.Tensor = self.weight_matrix.float().clone()  # out in
 
-            H = self.hessian.float().to(W.device)
+            H = self.hessian.float().to(W.device).clone()
 
             dead = torch.diag(H) == 0
             H[dead, dead] = 1
diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 12956ad..9119fd9 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -222,12 +222,12 @@ class GPTQMixIn(ModuleProtocol):
         """The implementation for GPTQ."""
         with torch_setting(dtype=torch.float):
             assert self.hessian is not None
-            W: torch.Tensor = self.weight_matrix.float()  # out in
+            W: torch.Tensor = self.weight_matrix.float().clone()  # out in
 
             if not quantizer.ready():
                 quantizer.find_params(W, weight=True)
 
-            H = self.hessian.float().to(W.device)
+            H = self.hessian.float().to(W.device).clone()
             dead = torch.diag(H) == 0
             H[dead, dead] = 1
             W[:, dead] = 0
-- 
2.43.0


From 44817a42989aa15e19a58823a28eeffc27d782e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 084/103] fix: GPTQ without cuda

---
 mmrazor/implementations/quantization/gptq/gptq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 9119fd9..ec4ae74 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -293,7 +293,8 @@ class GPTQMixIn(ModuleProtocol):
 
                 W[:, i2:] -= Err1.matmul(Hinv[i1:i2, i2:])
 
-            torch.cuda.synchronize()
+            if W.device.type == 'cuda':
+                torch.cuda.synchronize()
             error = torch.sum(Losses).item()
 
             groupsize = groupsize if groupsize != -1 else self.columns
-- 
2.43.0


From 1d4fe94f78c69e03f8606ed95f146c5cf6d1f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 085/103] fix: grouped convolutions are not compressed with a
 hessian of mixed groups

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 3 +++
 mmrazor/implementations/quantization/gptq/ops.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 9124ffe..642a02e 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -264,6 +264,9 @@ class SparseGptConv2d(DynamicConv2d, SparseGptMixIn):
     @classmethod
     def convert_from(cls, module: nn.Conv2d) -> 'DynamicConv2d':
         """Convert to cls from torch's module."""
+        if module.groups != 1:
+            # the inputs differ from group to group
+            return module
         new_module = super().convert_from(module)
         new_module.load_state_dict(module.state_dict(), strict=False)
 
diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index 5853f94..4287b1f 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -549,6 +549,9 @@ class GPTQConv2d(DynamicConv2d, GPTQMixIn):
     @classmethod
     def convert_from(cls, module: nn.Conv2d) -> 'DynamicConv2d':
         """Convert to cls from torch's module."""
+        if module.groups != 1:
+            # the inputs differ from group to group
+            return module
         new_module = super().convert_from(module)
         new_module.load_state_dict(module.state_dict(), strict=False)
 
-- 
2.43.0


From 7c66a2d49d16284a3265efc748e4d4dc076c84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 086/103] fix: modules shared by several parents stay shared
 when compressed

---
 mmrazor/implementations/pruning/sparse_gpt/utils.py    | 10 +++++++---
 .../implementations/quantization/gptq/compressor.py    |  9 +++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/utils.py b/mmrazor/implementations/pruning/sparse_gpt/utils.py
index df82784..963cba6 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/utils.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/utils.py
@@ -51,10 +51,14 @@ def replace_with_dynamic_ops(model: nn.Module,
 
         setattr(model, names[-1], module)
 
-    for name, module in model.named_modules():
+    new_modules: Dict[nn.Module, nn.Module] = {}
+    for name, module in list(model.named_modules(remove_duplicate=False)):
         if type(module) in dynamicop_map:
-            new_module = dynamicop_map[type(module)].convert_from(module)
-            replace_op(model, name, new_module)
+            # a module shared by several parents stays shared
+            if module not in new_modules:
+                new_modules[module] = dynamicop_map[type(
+                    module)].convert_from(module)
+            replace_op(model, name, new_modules[module])
 
 
 def register_efficient_forward_hook(module: nn.Module,
diff --git a/mmrazor/implementations/quantization/gptq/compressor.py b/mmrazor/implementations/quantization/gptq/compressor.py
index 4a5aadd..4a07fd4 100644
--- a/mmrazor/implementations/quantization/gptq/compressor.py
+++ b/mmrazor/implementations/quantization/gptq/compressor.py
@@ -23,9 +23,13 @@ def replace_with_dynamic_ops(model: nn.Module,
 
         setattr(model, names[-1], module)
 
-    for name, module in model.named_modules():
+    new_modules: Dict[nn.Module, nn.Module] = {}
+    for name, module in list(model.named_modules(remove_duplicate=False)):
         if type(module) in dynamicop_map and name not in skipped_layers:
-            if isinstance(module, nn.Linear):
+            if module in new_modules:
+                # a module shared by several parents stays shared
+                new_module = new_modules[module]
+            elif isinstance(module, nn.Linear):
                 if a_qconfig:
                     a_fakequant = Quantizer()
                     a_fakequant.configure(**a_qconfig)
@@ -34,6 +38,7 @@ def replace_with_dynamic_ops(model: nn.Module,
                     module, **kwargs)
             else:
                 new_module = dynamicop_map[type(module)].convert_from(module)
+            new_modules[module] = new_module
             replace_op(model, name, new_module)
 
 
-- 
2.43.0


From 28fc0f754d4a39f223216c710d5100a5ecbb4160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 087/103] fix: fuse convolutions whose kernels are not square

---
 .../dynamic_ops/mixins/dynamic_conv_mixins.py        | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index deb9f28..36763c6 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -474,16 +474,12 @@ class FuseConvMixin(DynamicConvMixin):
 
         weight = self.weight[:, 0:mutable_in_channels, :, :]
         if self.groups == 1:
-            cout, cin, k, _ = weight.shape
-            fused_weight = torch.mm(choice,
-                                    weight.reshape(cout,
-                                                   -1)).reshape(-1, cin, k, k)
+            fused_weight = torch.mm(choice, weight.flatten(1)).reshape(
+                -1, *weight.shape[1:])
         elif self.groups == self.in_channels == self.out_channels:
             # depth-wise conv
-            cout, cin, k, _ = weight.shape
-            fused_weight = torch.mm(choice,
-                                    weight.reshape(cout,
-                                                   -1)).reshape(-1, cin, k, k)
+            fused_weight = torch.mm(choice, weight.flatten(1)).reshape(
+                -1, *weight.shape[1:])
         else:
             raise NotImplementedError(
                 'Current `ChannelMutator` only support pruning the depth-wise '
-- 
2.43.0


From 40af26c220a6d3380512e2b1ca03baf7a3658504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 088/103] fix: how filters are fused is saved and loaded with
 them

---
 .../dynamic_ops/bricks/dynamic_conv.py           | 16 +++++++++++++++-
 .../dynamic_ops/mixins/dynamic_conv_mixins.py    |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
index 4604ccb..3573441 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
@@ -1,6 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import math
-from typing import Callable, Dict
+from typing import Callable, Dict, Optional
 
 import torch
 import torch.nn as nn
@@ -198,6 +198,7 @@ class FuseConv2d(nn.Conv2d, FuseConvMixin):
     def __init__(self, *args, **kwargs) -> None:
         super().__init__(*args, **kwargs)
         self.mutable_attrs: Dict[str, BaseMutable] = nn.ModuleDict()
+        self.fuse_choice: Optional[Tensor] = None
 
     @classmethod
     def convert_from(cls, module: nn.Conv2d) -> 'FuseConv2d':
@@ -228,6 +229,19 @@ class FuseConv2d(nn.Conv2d, FuseConvMixin):
         """Forward of fused conv2d."""
         return self.forward_mixin(x)
 
+    def _save_to_state_dict(self, destination, prefix, keep_vars):
+        """Save how the filters are fused along with the filters."""
+        super()._save_to_state_dict(destination, prefix, keep_vars)
+        if self.fuse_choice is not None:
+            destination[prefix + 'fuse_choice'] = self.fuse_choice
+
+    def _load_from_state_dict(self, state_dict, prefix, *args, **kwargs):
+        """Fuse the filters as they were fused when they were saved."""
+        choice = state_dict.pop(prefix + 'fuse_choice', None)
+        if choice is not None:
+            self.set_forward_args(choice.to(self.weight))
+        super()._load_from_state_dict(state_dict, prefix, *args, **kwargs)
+
 
 class DynamicConv2dAdaptivePadding(DynamicConv2d):
     """Dynamic version of mmcv.cnn.bricks.Conv2dAdaptivePadding."""
diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index 36763c6..f94edd2 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -420,6 +420,7 @@ class FuseConvMixin(DynamicConvMixin):
 
     def set_forward_args(self, choice: Tensor) -> None:
         """Interface for modifying the arch_param using partial."""
+        self.fuse_choice = choice
         param_channel_with_default_args: PartialType = \
             partial(
                 self._get_dynamic_params_by_mutable_channels_choice,
-- 
2.43.0


From 4dd9f053a50c0360793a275811eb5ea3324fc6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 089/103] fix: PKDLoss of maps that differ in width only

---
 mmrazor/models/losses/pkd_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/pkd_loss.py b/mmrazor/models/losses/pkd_loss.py
index febc05c..5254021 100644
--- a/mmrazor/models/losses/pkd_loss.py
+++ b/mmrazor/models/losses/pkd_loss.py
@@ -65,7 +65,7 @@ class PKDLoss(nn.Module):
 
         for pred_S, pred_T in zip(preds_S, preds_T):
             size_S, size_T = pred_S.shape[2:], pred_T.shape[2:]
-            if size_S[0] != size_T[0]:
+            if size_S != size_T:
                 if self.resize_stu:
                     pred_S = F.interpolate(pred_S, size_T, mode='bilinear')
                 else:
-- 
2.43.0


From ad7d1d9e1299bb041b611bb4e057edbd1e09f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 090/103] fix: DKDLoss honours its reduction

---
 mmrazor/models/losses/decoupled_kd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/losses/decoupled_kd.py b/mmrazor/models/losses/decoupled_kd.py
index 2aeff6a..a3115d8 100644
--- a/mmrazor/models/losses/decoupled_kd.py
+++ b/mmrazor/models/losses/decoupled_kd.py
@@ -105,8 +105,10 @@ class DKDLoss(nn.Module):
     ) -> torch.Tensor:
         """Calculate the KL Divergence."""
         kl_loss = F.kl_div(
-            preds_S, preds_T, size_average=False,
-            reduction=self.reduction) * self.tau**2
+            preds_S, preds_T, reduction=self.reduction) * self.tau**2
+        if self.reduction == 'none':
+            # the two parts have different numbers of classes
+            kl_loss = kl_loss.sum(dim=1)
         return kl_loss
 
     def _cat_mask(
-- 
2.43.0


From 11e98b419e24569b81c44f6a112f7c1f9a71fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 091/103] fix: CRDLoss honours its weight

---
 mmrazor/models/losses/crd_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/crd_loss.py b/mmrazor/models/losses/crd_loss.py
index 4ca81aa..f99db84 100644
--- a/mmrazor/models/losses/crd_loss.py
+++ b/mmrazor/models/losses/crd_loss.py
@@ -62,7 +62,7 @@ class CRDLoss(nn.Module):
         s_loss = self.criterion_s_t(out_s)
         t_loss = self.criterion_s_t(out_t)
         loss = s_loss + t_loss
-        return loss
+        return self.loss_weight * loss
 
 
 class ContrastLoss(nn.Module):
-- 
2.43.0


From 7221746af2216621eafb9c468e837180c8f9b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 092/103] fix: CRDDataset with different numbers of samples per
 class

---
 mmrazor/datasets/crd_dataset_wrapper.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mmrazor/datasets/crd_dataset_wrapper.py b/mmrazor/datasets/crd_dataset_wrapper.py
index aa62f38..83046be 100644
--- a/mmrazor/datasets/crd_dataset_wrapper.py
+++ b/mmrazor/datasets/crd_dataset_wrapper.py
@@ -106,15 +106,13 @@ class CRDDataset:
             ]
 
             if 0 < self.percent < 1:
-                n = int(len(self.cls_negative[0]) * self.percent)
+                # The classes may have different numbers of samples.
                 self.cls_negative = [
-                    np.random.permutation(self.cls_negative[i])[0:n]
-                    for i in range(num_classes)  # type: ignore
+                    np.random.permutation(negative)
+                    [0:int(len(negative) * self.percent)]
+                    for negative in self.cls_negative
                 ]
 
-            self.cls_positive = np.asarray(self.cls_positive)
-            self.cls_negative = np.asarray(self.cls_negative)
-
     @property
     def metainfo(self) -> dict:
         """Get the meta information of the repeated dataset.
-- 
2.43.0


From 6eb9299ae52ef520e08a72e1730288a6f9cbd35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 093/103] fix: attentive shortcuts of inputs that are not
 square

---
 mmrazor/models/architectures/ops/mobilenet_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/ops/mobilenet_series.py b/mmrazor/models/architectures/ops/mobilenet_series.py
index e6817dd..f0b0e27 100644
--- a/mmrazor/models/architectures/ops/mobilenet_series.py
+++ b/mmrazor/models/architectures/ops/mobilenet_series.py
@@ -42,7 +42,7 @@ class ShortcutLayer(BaseOP):
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
         if self.reduction > 1:
-            padding = x.size(-1) & 1
+            padding = (x.size(-2) & 1, x.size(-1) & 1)
             x = F.avg_pool2d(x, self.reduction, padding=padding)
 
         # HACK
-- 
2.43.0


From b0901a95aa2f4b1768f84700c30badb01d43abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 094/103] fix: WideResNet with frozen stages or norm_eval

---
 .../architectures/backbones/wideresnet.py       | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/architectures/backbones/wideresnet.py b/mmrazor/models/architectures/backbones/wideresnet.py
index 5350d8f..beea042 100644
--- a/mmrazor/models/architectures/backbones/wideresnet.py
+++ b/mmrazor/models/architectures/backbones/wideresnet.py
@@ -10,6 +10,7 @@ import torch.nn.functional as F
 from mmcv.cnn import build_conv_layer, build_norm_layer
 from mmengine.model import BaseModule
 from mmengine.model.weight_init import constant_init
+from torch.nn.modules.batchnorm import _BatchNorm
 
 from mmrazor.registry import MODELS
 
@@ -368,10 +369,8 @@ class WideResNet(BaseModule):
 
     def _freeze_stages(self):
         if self.frozen_stages >= 0:
-            self.norm1.eval()
-            for m in [self.conv1, self.norm1]:
-                for param in m.parameters():
-                    param.requires_grad = False
+            for param in self.conv1.parameters():
+                param.requires_grad = False
 
         for i in range(1, self.frozen_stages + 1):
             m = getattr(self, f'layer{i}')
@@ -392,6 +391,16 @@ class WideResNet(BaseModule):
                 if isinstance(m, BasicBlock):
                     constant_init(m.norm2, 0)
 
+    def train(self, mode=True):
+        """Convert the model into training mode while keep normalization layer
+        and the frozen stages fixed."""
+        super(WideResNet, self).train(mode)
+        self._freeze_stages()
+        if mode and self.norm_eval:
+            for m in self.modules():
+                if isinstance(m, _BatchNorm):
+                    m.eval()
+
     def forward(self, x):
         # TODO: return multi-stage features.
         x = self.conv1(x)
-- 
2.43.0


From 0cca5d37ed671637bbcff415867a5a7472f2b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 095/103] fix: AttentiveMobileNetV3 emptied the act_cfg_list it
 was given

---
 .../models/architectures/backbones/searchable_mobilenet_v3.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py b/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
index b5fe373..d1c9986 100644
--- a/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
+++ b/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
@@ -110,7 +110,7 @@ class AttentiveMobileNetV3(BaseBackbone):
         self.fine_grained_mode = fine_grained_mode
         self.with_attentive_shortcut = with_attentive_shortcut
 
-        self.act_cfg_list = act_cfg_list if act_cfg_list \
+        self.act_cfg_list = list(act_cfg_list) if act_cfg_list \
             else ['Swish'] * 9
         self.stride_list = stride_list if stride_list \
             else [1, 2, 2, 2, 1, 2, 1]
-- 
2.43.0


From 743f1ee224422fd4e84c023f18180b45210d9372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 096/103] fix: exporting a quantized model failed with torch 2

---
 mmrazor/models/quantizers/native_quantizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index e405db8..3689e0f 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -67,7 +67,7 @@ if digit_version(torch.__version__) >= digit_version('1.13.0'):
     def fake_quantize_per_channel_affine(g, x, scale, zero_point, ch_axis,
                                          quant_min, quant_max):
         return g.op('mmrazor::FixedPerChannelAffine', x, scale, zero_point,
-                    ch_axis, quant_min, quant_max)
+                    ch_axis, quant_min, quant_max).setType(x.type())
 
     register_custom_op_symbolic('::fake_quantize_per_channel_affine',
                                 fake_quantize_per_channel_affine, 11)
@@ -75,7 +75,7 @@ if digit_version(torch.__version__) >= digit_version('1.13.0'):
     def fake_quantize_per_tensor_affine(g, x, scale, zero_point, quant_min,
                                         quant_max):
         return g.op('mmrazor::FixedPerTensorAffine', x, scale, zero_point,
-                    quant_min, quant_max)
+                    quant_min, quant_max).setType(x.type())
 
     register_custom_op_symbolic('::fake_quantize_per_tensor_affine',
                                 fake_quantize_per_tensor_affine, 11)
-- 
2.43.0


From 06aa2be8946b5f5aa25c7485152099a179d98f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 097/103] fix: exporters lost the constants of all but one fake
 quantizer

---
 mmrazor/models/quantizers/exporters/base_quantize_exporter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
index 6527d32..a34a2c8 100644
--- a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
@@ -131,8 +131,7 @@ class BaseQuantizeExportor():
         collected_constant_names = set()
         constant_inputs = list()
         for node in symbolic_nodes:
-            constant_inputs = self._get_constant_inputs(node)
-            for constant in constant_inputs:
+            for constant in self._get_constant_inputs(node):
                 if constant.name in collected_constant_names:
                     continue
                 constant_inputs.append(constant)
-- 
2.43.0


From acc25340e73ab150ad6e0032651af720abbb02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 098/103] fix: per-channel quantization exported for TensorRT
 along the wrong axis

---
 .../exporters/tensorrt_quantize_exporter.py          | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py b/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py
index cde430b..ef45db5 100644
--- a/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py
@@ -7,7 +7,8 @@ except ImportError:
     from mmrazor.utils import get_package_placeholder
     onnx = get_package_placeholder('No module named onnx')
 
-from .base_quantize_exporter import BaseQuantizeExportor
+from .base_quantize_exporter import (PERCHANNEL_FAKEQUANTIZER,
+                                     BaseQuantizeExportor)
 
 
 class TensorRTExplicitExporter(BaseQuantizeExportor):
@@ -16,13 +17,18 @@ class TensorRTExplicitExporter(BaseQuantizeExportor):
         super().__init__(onnx_model, export_path)
 
     def _build_backend_node_from_symbolic(self, node):
+        attrs = dict()
+        if node.op_type in PERCHANNEL_FAKEQUANTIZER:
+            # The channels of a weight are its first dimension, whereas the
+            # axis of the onnx operators defaults to 1.
+            attrs['axis'] = 0
         quantize_linear_node = onnx.helper.make_node(
             'QuantizeLinear', node.input[:3], [node.name + '_quantized_out'],
-            node.name + '_quantized')
+            node.name + '_quantized', **attrs)
         dequantize_linear_node = onnx.helper.make_node(
             'DequantizeLinear',
             [node.name + '_quantized_out'] + quantize_linear_node.input[1:3],
-            node.output, node.name + '_dequantized')
+            node.output, node.name + '_dequantized', **attrs)
         return [quantize_linear_node, dequantize_linear_node]
 
     def build_backend_nodes(self, symbolic_nodes):
-- 
2.43.0


From f1251faaf81db999942330ddce549b72431c27db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 099/103] fix: a tensor quantized twice kept only the first
 range in OpenVINO graphs

---
 .../models/quantizers/exporters/openvino_quantize_exporter.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
index e706251..75e6e97 100644
--- a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
@@ -41,7 +41,8 @@ class OpenVinoQuantizeExportor(BaseQuantizeExportor):
         output_name = node.output[0]
         # Create a node (FakeQuantize)
         keys = ['input_min', 'input_max', 'output_min', 'output_max']
-        input_names = [f'{tensor_name}_{key}' for key in keys]
+        # A tensor may be quantized by several nodes.
+        input_names = [f'{output_name}_{key}' for key in keys]
         backend_node = helper.make_node(
             'FakeQuantize',  # node name
             [tensor_name, *input_names],  # inputs
-- 
2.43.0


From 2eccbffc5f1addb3d69725c7cb1b75de77a50f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 100/103] fix: per-channel weights of linear layers without
 bias in OpenVINO graphs

---
 .../exporters/openvino_quantize_exporter.py      | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
index 75e6e97..7f2dd5e 100644
--- a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
@@ -101,17 +101,13 @@ class OpenVinoQuantizeExportor(BaseQuantizeExportor):
             backend_nodes.append(new_node)
 
             try:
-                # If the successor node (such as a conv node) has weight,
-                # we need get the length of the weight's shape. And ensure
-                # the length of the weight's shape and the new node's
-                # input shape (such as input_low and input_high) is the same.
-                next_node = self.input2node[node.output[0]][0][0]
-                # node for save weights
-                fake_node = self.output2node[next_node.input[1]]
-                tensor = self.name2data[fake_node.input[0]]
-                shape_length = len(tensor.shape)
+                # If a weight is quantized, we need get the length of the
+                # weight's shape. And ensure the length of the weight's shape
+                # and the new node's input shape (such as input_low and
+                # input_high) is the same.
+                shape_length = len(self.name2data[tensor_name].shape)
                 new_shape = [-1] + [1] * (shape_length - 1)
-            except Exception:
+            except KeyError:
                 new_shape = [-1]
 
             # The first element of new_node.input is the tensor name.
-- 
2.43.0


From daa1b011971b6309d8cc7d46af4795de86c4ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 101/103] fix: optimizing an exported graph removed outputs of
 the graph

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index f4adc5e..77bc10f 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -83,12 +83,14 @@ class ONNXOptimUtils():
     @classmethod
     def remove_fake_pad_op(cls, onnx_model, name2data, inp2node, out2node):
         nodes_to_be_removed = []
+        graph_outputs = {output.name for output in onnx_model.graph.output}
         for idx, node in enumerate(onnx_model.graph.node):
-            if node.op_type == 'Pad':
+            # An output of the graph has to be kept under its name.
+            if node.op_type == 'Pad' and node.output[0] not in graph_outputs:
                 pads = name2data[node.input[1]]
                 if all([x == 0 for x in pads]):
                     print_log(f'Remove pad op: <{node.name}>.')
-                    next_nodes = inp2node[node.output[0]]
+                    next_nodes = inp2node.get(node.output[0], [])
                     for next_node, idx in next_nodes:
                         next_node.input[idx] = node.input[0]
                     nodes_to_be_removed.append(node)
@@ -116,13 +118,15 @@ class ONNXOptimUtils():
         if output2node is None:
             output2node = cls.map_output_and_node(onnx_model)
 
+        graph_outputs = {output.name for output in onnx_model.graph.output}
+
         def _is_standalone_node(node, input2node, output2node):
             for input_name in node.input:
                 if input_name in output2node:
                     return False
 
             for out_node in node.output:
-                if out_node in input2node:
+                if out_node in input2node or out_node in graph_outputs:
                     return False
 
             return True
@@ -142,11 +146,13 @@ class ONNXOptimUtils():
         if input2node is None:
             input2node = cls.map_input_and_node(onnx_model)
 
+        graph_outputs = {output.name for output in onnx_model.graph.output}
         initializers = cls.map_name_and_initializer(onnx_model)
         redundant_initializers = list()
         redundant_set = set()
         for name, init_and_idx in initializers.items():
-            if name not in input2node and name not in redundant_set:
+            if name not in input2node and name not in graph_outputs and \
+                    name not in redundant_set:
                 # init_and_idx[0] is onnx.onnx_ml_pb2.TensorProto
                 # init_and_idx[1] is a integer index
                 redundant_initializers.append(init_and_idx[0])
-- 
2.43.0


From cec9896a1839fcf2c51ba5b03047663942f0ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 102/103] fix: exporting a graph with omitted optional inputs

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index 77bc10f..0d807c4 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -209,7 +209,8 @@ class ONNXOptimUtils():
         # Build graph
         for i, node in enumerate(_onnx_model.graph.node):
             for input_name in node.input:
-                if input_name not in initializers:
+                # The name of an omitted optional input is empty.
+                if input_name and input_name not in initializers:
                     indegree[node.name] += 1
                     prev_node = output_name2node[input_name]
                     graph[prev_node.name].append(node)
-- 
2.43.0


From 6634b8ed9685a173edf9ef179d51f73a5bb16491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 103/103] fix: initializers of removed nodes were left in
 exported graphs

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index 0d807c4..ff57018 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -261,8 +261,8 @@ class ONNXOptimUtils():
             cls.remove_node_from_onnx(node, onnx_model)
             print_log(f'Remove node {node.name}')
 
-        redundant_inits = cls.find_redundant_initializers(
-            onnx_model, input2node)
+        # The removed nodes may have been the only users of an initializer.
+        redundant_inits = cls.find_redundant_initializers(onnx_model)
         for init in redundant_inits:
             cls.remove_initializer_from_onnx(init, onnx_model)
             print_log(f'Remove initializer {init.name}')
-- 
2.43.0

