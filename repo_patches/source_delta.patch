From 7316b5a70140abca09ee8dff9b720e2664b28e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:33 +0000
Subject: [PATCH 01/43] fix: return the derivative of the sigmoid instead of
 the sigmoid itself

---
 neuro_shooting/activation_functions_and_derivatives.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/activation_functions_and_derivatives.py b/neuro_shooting/activation_functions_and_derivatives.py
index a0c02df..c72c425 100644
--- a/neuro_shooting/activation_functions_and_derivatives.py
+++ b/neuro_shooting/activation_functions_and_derivatives.py
@@ -18,6 +18,11 @@ def dtanh(x):
     # derivative of tanh
     return 1.0-torch.tanh(x)**2
 
+def dsigmoid(x):
+    # derivative of sigmoid
+    s = torch.sigmoid(x)
+    return s*(1.0-s)
+
 def identity(x):
     return x
 
@@ -54,7 +59,7 @@ def get_nonlinearity(nonlinearity):
         dnl = didentity
     elif use_nonlinearity == 'sigmoid':
         nl = torch.sigmoid
-        dnl = torch.sigmoid
+        dnl = dsigmoid
     elif use_nonlinearity == 'softmax':
         nl = softmax
         dnl = dsoftmax
-- 
2.43.0


From 9bf51ff2ea1bae094a319fa1382a020e17dd2366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:33 +0000
Subject: [PATCH 02/43] fix: do not step over the active interval when looking
 up particle-free parameters

---
 neuro_shooting/shooting_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index eef0237..9031940 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -76,9 +76,9 @@ class ParticleFreeParameterFunc(object):
                 elif t>self.last_used_time: # t>=self.last_used_time, search to the right, but does not go outside the range
                     # first check if it is larger than the largest where we havge a parameter
                     # search to the right, and it is not greater thatn the last so we can savely go to the right until we find it
-                    while t>self.last_used_time:
+                    while t>=self.times[self.last_used_time_idx+1]:
                         self.last_used_time_idx += 1
-                        self.last_used_time = self.times[self.last_used_time_idx]
+                    self.last_used_time = self.times[self.last_used_time_idx]
                     return self.time_parameter_list[self.last_used_time_idx]
                 else:
                     raise ValueError('This should never have happend. Uncaught time {}'.format(t.item()))
-- 
2.43.0


From ff5ae32fbefaaa1c7e6f7dd55f49811ebbc36b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:33 +0000
Subject: [PATCH 03/43] fix: query externally managed parameters by time in the
 reduced Lagrangian

---
 neuro_shooting/shooting_integrands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 2bbc9c1..342a548 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -365,7 +365,7 @@ class ShootingIntegrandBase(nn.Module):
                 if self._rnn_parameter_func is None:
                     raise ValueError('Externally managed RNN parameter function cannot be created here. Should have been assigned before.')
 
-                parameter_objects = self._rnn_parameter_func(t)
+                parameter_objects = self._rnn_parameter_func.get_parameters_at_time(t)
             else:
                 if self._rnn_parameters is None:
                     parameter_objects = self.compute_parameters(t=t, state_dict_of_dicts=state_dict_of_dicts,
-- 
2.43.0


From 6e88e1aafee830e03884843c8387b47aa1685be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 04/43] fix: include the dampening term in the analytic costate
 of the q2-dampened up-down model

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 5dcf7bf..5502446 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1594,7 +1594,7 @@ class AutoShootingIntegrandModelUpdownDampenedQ2(shooting.ShootingLinearInParame
         dot_p2t = - self.dnl(q2i) * torch.matmul(p1i,l1)
         dot_p1t = - torch.matmul(p2i,l2)
         rhs['dot_p_q1'] = dot_p1t #- self.dampening_factor * p1i
-        rhs['dot_p_q2'] = dot_p2t #- self.dampening_factor * p2i
+        rhs['dot_p_q2'] = dot_p2t + self.dampening_factor * p2i
 
         return rhs
 
-- 
2.43.0


From 20f634b57c885c62112186a6cf9c3036412f8830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 05/43] fix: transpose the given dictionaries when
 transpose_state_when_forward is set

---
 neuro_shooting/shooting_integrands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 342a548..10eb50b 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -768,7 +768,7 @@ class ShootingIntegrandBase(nn.Module):
         # there might be multiple dictionaries that constitute the state dictionary, so transpose each of them
         ret_dicts = SortedDict()
         for k in generic_dict_dict_of_dicts:
-            ret_dicts[k] = self.transpose_state(ret_dicts[k])
+            ret_dicts[k] = self.transpose_state(generic_dict_dict_of_dicts[k])
         return ret_dicts
 
     def transpose_state(self,generic_dict):
@@ -808,7 +808,7 @@ class ShootingIntegrandBase(nn.Module):
                 # as we transposed the vectors before we need to transpose on the way back
                 dot_state_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_state_dict_of_dicts)
                 dot_costate_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_costate_dict_of_dicts)
-                dot_data_dict_of_dicts = self.transpose_state(dot_data_dict_of_dicts)
+                dot_data_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_data_dict_of_dicts)
 
             # create a vector out of this to pass to integrator
             output,assembly_plans = self.assemble_tensor(state_dict_of_dicts=dot_state_dict_of_dicts, costate_dict_of_dicts=dot_costate_dict_of_dicts, data_dict_of_dicts=dot_data_dict_of_dicts)
-- 
2.43.0


From a168638a1fa834ec15a2f9ddb1aa18f0f3c792de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 06/43] fix: accept explicitly specified assembly plans when
 disassembling

---
 neuro_shooting/shooting_integrands.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 10eb50b..f4ade36 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -256,7 +256,8 @@ class ShootingIntegrandBase(nn.Module):
 
         if assembly_plans is None:
             assembly_plans = self.auto_assembly_plans
-        else:
+
+        if assembly_plans is None:
             raise ValueError('No assembly plan specified to disassemble tensor. Either explicity specify when calling this method or set one via set_auto_assembly_plans')
 
         return scd_utils.disassemble_tensor(input=input, assembly_plans=assembly_plans, dim=dim)
-- 
2.43.0


From 59d0854ebbd498c499595af759f9209d6d31137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:13 +0000
Subject: [PATCH 07/43] fix: allow keeping initial and enlargement state
 parameters at zero

---
 neuro_shooting/shooting_blocks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 9031940..563b41c 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -542,7 +542,7 @@ class ShootingBlockBase(nn.Module):
             if keep_state_parameters_at_zero:
                 print('INFO: Keeping new state parameters at zero for {}'.format(self._block_name))
                 for k in state_dict:
-                    state_dict[k].zero_()
+                    state_dict[k].requires_grad_(False).zero_()
             else:
                 for k in state_dict:
                     self.register_parameter(k,state_dict[k])
@@ -572,7 +572,8 @@ class ShootingBlockBase(nn.Module):
                         if c_state_dict[k] is not None:
                             if keep_state_parameters_at_zero:
                                 print('INFO: Keeping new state enlargement parameters at zero for {}'.format(self._block_name))
-                                c_state_dict[k][0]._zero()
+                                c_state_dict[k][0].requires_grad_(False).zero_()
+                                continue
                             self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
                             print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
 
-- 
2.43.0


From 16ad6781dbb043f2d498374e02c1d097a98c42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:13 +0000
Subject: [PATCH 08/43] fix: allow moving a shooting block after an integration
 time vector was set

---
 neuro_shooting/shooting_blocks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 563b41c..1152860 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -271,13 +271,15 @@ class ShootingBlockBase(nn.Module):
     def _apply(self, fn):
         super(ShootingBlockBase, self)._apply(fn)
         self.shooting_integrand._apply(fn)
-        self.integration_time = fn(self.integration_time)
+        if self.integration_time is not None:
+            self.integration_time = fn(self.integration_time)
         return self
 
     def to(self, *args, **kwargs):
         super(ShootingBlockBase,self).to(*args, **kwargs)
         self.shooting_integrand.to(*args, **kwargs)
-        self.integration_time = self.integration_time.to(*args, **kwargs)
+        if self.integration_time is not None:
+            self.integration_time = self.integration_time.to(*args, **kwargs)
         return self
 
     def create_initial_state_and_costate_parameters(self, *args, **kwargs):
-- 
2.43.0


From dec269d6914a2c86b72890bbe04bf0ff621e4444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:46 +0000
Subject: [PATCH 09/43] fix: support bias-free convolutions and honor the
 padding mode of SNN_Conv2d

---
 neuro_shooting/overwrite_classes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/neuro_shooting/overwrite_classes.py b/neuro_shooting/overwrite_classes.py
index 637d283..ec9b5d4 100644
--- a/neuro_shooting/overwrite_classes.py
+++ b/neuro_shooting/overwrite_classes.py
@@ -156,14 +156,16 @@ class SNN_Conv2d(nn.Conv2d,RemoveParameters):
         return self
 
     def forward(self, input):
-        if self.padding_mode == 'circular':
-            expanded_padding = ((self.padding[1] + 1) // 2, self.padding[1] // 2,
-                                (self.padding[0] + 1) // 2, self.padding[0] // 2)
-            return F.conv2d(F.pad(input, expanded_padding, mode='circular'),
-                            self._parameter_dict['weight'], self._parameter_dict['bias'], self.stride,
+        bias = self._parameter_dict.get('bias')
+
+        if self.padding_mode != 'zeros':
+            expanded_padding = (self.padding[1], self.padding[1],
+                                self.padding[0], self.padding[0])
+            return F.conv2d(F.pad(input, expanded_padding, mode=self.padding_mode),
+                            self._parameter_dict['weight'], bias, self.stride,
                             _pair(0), self.dilation, self.groups)
 
-        return F.conv2d(input, self._parameter_dict['weight'], self._parameter_dict['bias'], self.stride,
+        return F.conv2d(input, self._parameter_dict['weight'], bias, self.stride,
                         self.padding, self.dilation, self.groups)
 
 
-- 
2.43.0


From e3b436d0e8b2da7219c6247b0cccc93c6aeb24ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:46 +0000
Subject: [PATCH 10/43] fix: support SNN_GroupNorm without affine parameters

---
 neuro_shooting/overwrite_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/overwrite_classes.py b/neuro_shooting/overwrite_classes.py
index ec9b5d4..28cb834 100644
--- a/neuro_shooting/overwrite_classes.py
+++ b/neuro_shooting/overwrite_classes.py
@@ -193,7 +193,7 @@ class SNN_GroupNorm(nn.GroupNorm,RemoveParameters):
 
     def forward(self, input):
         return F.group_norm(
-            input, self.num_groups, self._parameter_dict['weight'], self._parameter_dict['bias'], self.eps)
+            input, self.num_groups, self._parameter_dict.get('weight'), self._parameter_dict.get('bias'), self.eps)
 
 
 
-- 
2.43.0


From c6591a9c653d4cc9db3aa432bca20d9995161f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:46 +0000
Subject: [PATCH 11/43] fix: do not accumulate swept parameters across calls

---
 neuro_shooting/command_line_execution_tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 2c9164e..99202dd 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -3,7 +3,12 @@ import os
 import copy
 from collections import OrderedDict
 
-def recursively_sweep_parameters(pars_to_sweep,par_dict=OrderedDict(),swept_parameter_list=[]):
+def recursively_sweep_parameters(pars_to_sweep,par_dict=None,swept_parameter_list=None):
+
+    if par_dict is None:
+        par_dict = OrderedDict()
+    if swept_parameter_list is None:
+        swept_parameter_list = []
 
     cur_pars = copy.deepcopy(pars_to_sweep)
     # get first key and remove it
-- 
2.43.0


From 1688404f0c7f3294f9eaca791eeade3f5402fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:46 +0000
Subject: [PATCH 12/43] fix: import inf from math as torch._six no longer
 exists

---
 neuro_shooting/custom_lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/custom_lr_scheduler.py b/neuro_shooting/custom_lr_scheduler.py
index 0ce03bb..f2cce03 100644
--- a/neuro_shooting/custom_lr_scheduler.py
+++ b/neuro_shooting/custom_lr_scheduler.py
@@ -2,7 +2,7 @@ import torch
 
 import math
 import torch
-from torch._six import inf
+from math import inf
 from functools import partial
 from torch.optim import Optimizer
 
-- 
2.43.0


From f008477b45af2b689d581fb3fc76f8f8d4651d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:46 +0000
Subject: [PATCH 13/43] fix: do not modify the integrator options passed by the
 caller

---
 neuro_shooting/generic_integrator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index a350400..d68d4eb 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -78,9 +78,8 @@ class GenericIntegrator(object):
             raise ValueError('Integrator {} not available for {}'.format(self.integrator_name, self.integrator_library))
 
         self.use_adjoint_integration = use_adjoint_integration
-        self.integrator_options = integrator_options
-        if self.integrator_options is None:
-            self.integrator_options = dict()
+        # copy the options, so that defaults added below do not leak into the caller's dictionary
+        self.integrator_options = dict() if integrator_options is None else dict(integrator_options)
 
         self.kwargs = kwargs
 
-- 
2.43.0


From 3b05f3f0a7e4429bb4a74dafd703703fb94f8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:04 +0000
Subject: [PATCH 14/43] fix: create checkpointing times in the precision of the
 requested times

---
 neuro_shooting/generic_integrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index d68d4eb..d1613bd 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -153,9 +153,9 @@ class GenericIntegrator(object):
         t_to = t[-1]
 
         if self.nr_of_checkpoints is not None:
-            checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2) # if we want one checkpoint we need three points, hence +2
+            checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2,dtype=t.dtype,device=t.device) # if we want one checkpoint we need three points, hence +2
         elif self.checkpointing_time_interval is not None:
-            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval)
+            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval,dtype=t.dtype,device=t.device)
             if checkpointing_time_points[-1]!=t_to:
                 # append it
                 checkpointing_time_points = torch.cat((checkpointing_time_points, torch.tensor([t_to])), dim=0)
-- 
2.43.0


From c88541cd15733c1d7678d00f34e4364c4c10162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:29 +0000
Subject: [PATCH 15/43] fix: concatenate along the feature dimension when all
 time points are output

---
 neuro_shooting/shooting_blocks.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 1152860..0924f73 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -706,21 +706,22 @@ class ShootingBlockBase(nn.Module):
             res = self.shooting_integrand.disassemble(res_final,dim=0)
 
         if self.shooting_integrand.concatenate_parameters:
-            # we also concatenate the output
+            # we also concatenate the output (if all times are output then the first dimension is time)
+            time_dim_offset = 1 if self.integration_time_vector is not None else 0
             res_state_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=state_dict_of_dicts,
-                                                                                                   concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                   concatenation_dim=self.shooting_integrand.concatenation_dim+time_dim_offset,
                                                                                                    block_name=self._block_name)
             res_costate_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=costate_dict_of_dicts,
-                                                                                                     concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                     concatenation_dim=self.shooting_integrand.concatenation_dim+time_dim_offset,
                                                                                                      block_name=self._block_name)
             res_data_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=data_dict_of_dicts,
-                                                                                                  concatenation_dim=self.shooting_integrand.data_concatenation_dim,
+                                                                                                  concatenation_dim=self.shooting_integrand.data_concatenation_dim+time_dim_offset,
                                                                                                   block_name=self._block_name)
             if type(res)==torch.Tensor:
                 res_res = res
             else:
                 res_res = scd_utils._concatenate_dict_of_dicts(generic_dict_of_dicts=res,
-                                                               concatenation_dim=self.shooting_integrand.data_concatenation_dim)
+                                                               concatenation_dim=self.shooting_integrand.data_concatenation_dim+time_dim_offset)
                 # if we have concatenated this there should only be one key now. Check this and return it, otherwise return the entire structure
                 current_keys = list(res_res.keys())
                 if len(current_keys)==1:
-- 
2.43.0


From 6ed09e588380b48e343f1f8838b131fe079d55c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:29 +0000
Subject: [PATCH 16/43] fix: support constant initialization for convolutional
 particles

---
 neuro_shooting/parameter_initialization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neuro_shooting/parameter_initialization.py b/neuro_shooting/parameter_initialization.py
index 20ded7e..ae21a1b 100644
--- a/neuro_shooting/parameter_initialization.py
+++ b/neuro_shooting/parameter_initialization.py
@@ -152,6 +152,14 @@ class ConvolutionEvolutionParameterInitializerBase(ParameterInitializer):
         size = tuple([nr_of_particles,particle_dimension,*particle_size])
         return nn.Parameter(torch.zeros(size))
 
+    def create_constant_parameters(self, nr_of_particles, particle_size, particle_dimension=1, constant=None, *argv, **kwargs):
+
+        if type(particle_size)!=tuple and type(particle_size)!=list:
+            raise ValueError('Expected the particle size as a tuple or list e.g., [3,3], but got {}.'.format(type(particle_size)))
+
+        size = tuple([nr_of_particles,particle_dimension,*particle_size])
+        return nn.Parameter(constant*torch.ones(size))
+
 class ConvolutionEvolutionParameterInitializer(ConvolutionEvolutionParameterInitializerBase):
     def __init__(self, only_random_initialization=True, random_initialization_magnitude=0.5, sample_batch=None):
         super(ConvolutionEvolutionParameterInitializer, self).__init__(
-- 
2.43.0


From 97cb7c9278e0729adc2a7be2591da959d60d8914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:29 +0000
Subject: [PATCH 17/43] fix: predict consistently sized initial conditions in
 the convolutional up-down model

---
 neuro_shooting/shooting_models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 5502446..a2cbdca 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -2107,7 +2107,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
                 # self.init_l1 = nn.Linear(2, 10)
                 # TODO: shouldn't hard code this
                 self.init_l1 = nn.Conv2d(particle_dimension, particle_dimension*inflation_factor,kernel_size = 1)
-                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 2)
+                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 1)
 
             else:
                 raise ValueError(
@@ -2173,8 +2173,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
             #     data_dict['q2'] = data_q20_replicated
             if self.optimize_over_data_initial_conditions_type.lower() == 'linear':
                 q20 = self.simple_init(x)
-                #data_dict['q2'] = q20
-                data_dict['q2'] = x
+                data_dict['q2'] = q20
             elif self.optimize_over_data_initial_conditions_type.lower() == 'mini_nn':
                 # predict the initial condition based on a simple neural network
                 q20 = self.init_l2(self.nl(self.init_l1(x)))
-- 
2.43.0


From b1ad77a1a059b182b6632524f278cb51e6dd1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:22 +0000
Subject: [PATCH 18/43] fix: match the size of the third layer to its state in
 the symmetrized up-down model

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index a2cbdca..6f9d870 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1692,7 +1692,7 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
 
         linear1 = oc.SNN_Linear(in_features=self.in_features*self.inflation_factor,out_features=self.in_features,weight=self.parameter_weight)
         linear2 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features*self.inflation_factor,weight=self.parameter_weight)
-        linear3 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features*self.inflation_factor,weight=self.parameter_weight)
+        linear3 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features,weight=self.parameter_weight)
         parameter_objects['l1'] = linear1
         parameter_objects['l2'] = linear2
         parameter_objects['l3'] = linear3
-- 
2.43.0


From 3f3427fc32784c3924990f342622b501c3a91085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:49 +0000
Subject: [PATCH 19/43] fix: classify the output of the shooting block when the
 network has only one block

---
 neuro_shooting/res_net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/res_net.py b/neuro_shooting/res_net.py
index e564cdd..50020ce 100644
--- a/neuro_shooting/res_net.py
+++ b/neuro_shooting/res_net.py
@@ -182,7 +182,7 @@ class BasicResNet(nn.Module):
         for shooting_layer,striding_block in zip(self.shooting_layers,self.striding_blocks):
             for shooting_block in shooting_layer:
                 if is_first:
-                    _, state_dicts, costate_dicts, data_dicts = shooting_block(x=ret)
+                    ret, state_dicts, costate_dicts, data_dicts = shooting_block(x=ret)
                     is_first = False
                 else:
                     ret, state_dicts, costate_dicts, data_dicts = shooting_block(data_dict_of_dicts=data_dicts,
-- 
2.43.0


From d82fef6f821293a7cd9e93ec72d52062731e999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:59 +0000
Subject: [PATCH 20/43] fix: run swept experiments with the requested python
 interpreter

---
 neuro_shooting/command_line_execution_tools.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 99202dd..98b896b 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -38,10 +38,9 @@ def run_command_with_args(python_script,run_args,path_to_python,cuda_visible_dev
     cmd_arg_list = _make_arg_list(run_args)
     current_python_script = python_script
 
-    pre_command = 'alias python="{}"'.format(path_to_python) #'conda activate {}'.format(conda_environment)
-
-    entire_pre_command = get_bash_precommand(cuda_visible_devices=cuda_visible_devices,pre_command=pre_command)
-    execute_python_script_via_bash(current_python_script, cmd_arg_list, pre_command=entire_pre_command, log_file=log_file)
+    # the interpreter is passed explicitly, as aliases are not expanded by a non-interactive bash
+    entire_pre_command = get_bash_precommand(cuda_visible_devices=cuda_visible_devices)
+    execute_python_script_via_bash(current_python_script, cmd_arg_list, pre_command=entire_pre_command, log_file=log_file, python_command=path_to_python)
 
 
 def _make_arg_list(args):
@@ -128,9 +127,9 @@ def execute_command( command, arguments_as_list, verbose=True ):
     command_list.append( el )
   subprocess.call( command_list )
 
-def execute_python_script_via_bash( python_script, arguments_as_list, pre_command=None, log_file=None ):
+def execute_python_script_via_bash( python_script, arguments_as_list, pre_command=None, log_file=None, python_command='python' ):
 
-  str = get_string_argument_from_list(['python'] + [python_script] + arguments_as_list)
+  str = get_string_argument_from_list([python_command] + [python_script] + arguments_as_list)
   if pre_command is not None and log_file is not None:
     bash_command = 'bash -c "{:s} {:s} > >(tee {:s}) 2>&1"'.format(pre_command,str,log_file)
   elif pre_command is not None and log_file is None:
-- 
2.43.0


From 04a9227701e36951fecb65e72f764ad8a1077ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:59 +0000
Subject: [PATCH 21/43] fix: drop flags which are swept to False but set in the
 template

---
 neuro_shooting/experiment_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neuro_shooting/experiment_utils.py b/neuro_shooting/experiment_utils.py
index bb51f74..799a2ec 100644
--- a/neuro_shooting/experiment_utils.py
+++ b/neuro_shooting/experiment_utils.py
@@ -77,6 +77,8 @@ def merge_args(run_args_template,add_args):
         if (v is True) or (v is False): # check if v is binary
             if v:
                 merged_args[k] = None # just add the flag
+            else:
+                merged_args.pop(k,None) # remove the flag in case it is set in the template
         else:
             merged_args[k] = v
 
-- 
2.43.0


From 7c4e564dd21a013586fe13966fae0a976891c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 22/43] fix: do not retain the data concatenation dimension of
 a previous forward call

---
 neuro_shooting/shooting_blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 0924f73..25dae65 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -490,6 +490,8 @@ class ShootingBlockBase(nn.Module):
                 generic_dict_of_dicts=data_dict_of_dicts,
                 generic_dict_block_name=self._block_name)
         else:
+            # do not retain the dimension determined for the (possibly differently laid out) data of a previous call
+            self.shooting_integrand.set_data_concatenation_dim(data_concatenation_dim=self.shooting_integrand.concatenation_dim)
             data_dicts = data_dict_of_dicts
 
         # initialize the second state of x with zero so far
-- 
2.43.0


From 22a1fe1397ae381a1b39f3c75e263e834fefa16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:44 +0000
Subject: [PATCH 23/43] fix: compute gradients of particle-free parameters when
 using adjoint integration

---
 neuro_shooting/generic_integrator.py  |  6 +++++-
 neuro_shooting/shooting_integrands.py | 13 +++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index d1613bd..e712214 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -104,8 +104,12 @@ class GenericIntegrator(object):
 
     def _integrate_odeint(self,func,x0,t):
         if self.use_adjoint_integration:
+            kwargs = dict(self.kwargs)
+            if hasattr(func,'get_adjoint_parameters'):
+                # parameters which are not registered with the integrand also need to receive gradients
+                kwargs.setdefault('adjoint_params',func.get_adjoint_parameters())
             # odeint(func, y0, t, rtol=1e-7, atol=1e-9, method=None, options=None)
-            res = odeintadjoint(func=func,y0=x0,t=t,rtol=self.rtol, atol=self.atol, method=self.integrator_name,options=self.integrator_options,**self.kwargs)
+            res = odeintadjoint(func=func,y0=x0,t=t,rtol=self.rtol, atol=self.atol, method=self.integrator_name,options=self.integrator_options,**kwargs)
             return res
         else:
             # odeint(func, y0, t, rtol=1e-7, atol=1e-9, method=None, options=None)
diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index f4ade36..ae2106a 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -106,6 +106,19 @@ class ShootingIntegrandBase(nn.Module):
         self.use_rnn_mode = True
         self._externally_managed_rnn_parameters = True
 
+    def get_adjoint_parameters(self):
+        """
+        Returns all the parameters the right hand side depends on, i.e., also the externally managed (particle-free) ones
+        which are not registered with the integrand itself.
+
+        :return: tuple of parameters
+        """
+        parameters = list(self.parameters())
+        if self._externally_managed_rnn_parameters:
+            for parameter_objects in self._rnn_parameter_func.get_time_parameter_list():
+                parameters.extend(scd_utils.compute_tuple_from_parameter_objects(parameter_objects))
+        return tuple(parameters)
+
     def set_data_concatenation_dim(self,data_concatenation_dim):
         self.data_concatenation_dim = data_concatenation_dim
 
-- 
2.43.0


From a4148fc85d9511d5a0672fcdc816db9c608f4134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:49 +0000
Subject: [PATCH 24/43] fix: do not let recorded parameters alias trainable
 particle-free parameters

---
 neuro_shooting/shooting_hooks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_hooks.py b/neuro_shooting/shooting_hooks.py
index 203d9eb..5cf2fa2 100644
--- a/neuro_shooting/shooting_hooks.py
+++ b/neuro_shooting/shooting_hooks.py
@@ -66,7 +66,7 @@ def parameter_evolution_hook(module, t, state_dicts, costate_dicts, data_dict_of
             cur_par_dict = parameter_objects[k].get_parameter_dict()
             for p in cur_par_dict:
                 cur_key = '{}.{}'.format(k, p)
-                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy())
+                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy().copy())
                 # add to current energy
                 current_energy += 0.5 * torch.sum(cur_par_dict[p] ** 2)
 
-- 
2.43.0


From c000646748984dc4c86b1a5acb3501696209b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:12 +0000
Subject: [PATCH 25/43] fix: decode the output of called python scripts before
 splitting it into lines

---
 neuro_shooting/command_line_execution_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 98b896b..ba5b66a 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -147,7 +147,7 @@ def call_python_script( cmd ):
   cmd_full = 'python ' + cmd
   p = subprocess.Popen(cmd_full, stdout=subprocess.PIPE, shell=True)
   out, err = p.communicate()
-  result = out.split('\n')
+  result = out.decode().split('\n')
   for lin in result:
     if not lin.startswith('#'):
         print(lin)
-- 
2.43.0


From a63857de13c3fe11cdcfaab238754af12dd4065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:10 +0000
Subject: [PATCH 26/43] fix: use the number of particles which are integrated
 in blocks which only continue an integration

---
 neuro_shooting/shooting_integrands.py |  5 ++++-
 neuro_shooting/shooting_models.py     | 24 ++++++++++++------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index ae2106a..1315268 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -406,7 +406,10 @@ class ShootingIntegrandBase(nn.Module):
         if (not self.use_rnn_mode) and (self._externally_managed_rnn_parameters is None):
             del parameter_objects
 
-        return self.nr_of_particles * lagrangian,self.nr_of_particles * kinetic_energy, self.nr_of_particles *potential_energy
+        # a block which only continues the integration works on particles which were handed over to it
+        nr_of_particles = scd_utils.extract_batch_size_from_dict_of_dicts(state_dict_of_dicts)
+
+        return nr_of_particles * lagrangian, nr_of_particles * kinetic_energy, nr_of_particles * potential_energy
 
     def compute_lagrangian(self, t, state_dict_of_dicts, costate_dict_of_dicts, parameter_objects):
         """
diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 6f9d870..dfd436f 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1019,7 +1019,7 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # now we can also compute the rhs of the costate (based on the manually computed shooting equations)
         dot_pt = torch.zeros_like(pi)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             dot_pt[i, ...] = -self.dnl(qi[i, ...]) * torch.matmul(pi[i, ...], A)
 
         rhs['dot_p_q1'] = dot_pt
@@ -1040,7 +1040,7 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # now we can also compute the rhs of the costate (based on the manually computed shooting equations)
         dot_pt = torch.zeros_like(pi)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             dot_pt[i, ...] = -self.dnl(qi[i, ...]) * torch.matmul(pi[i, ...], A)
 
         rhs['dot_p_q2'] = dot_pt
@@ -1077,10 +1077,10 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
-        At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        At = 1 / pi.shape[0] * At  # because of the mean in the Lagrangian multiplier
+        bt = 1 / pi.shape[0] * pi.sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict = p['l1'].get_parameter_dict()
@@ -1096,10 +1096,10 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
-        At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        At = 1 / pi.shape[0] * At  # because of the mean in the Lagrangian multiplier
+        bt = 1 / pi.shape[0] * pi.sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict = p['l2'].get_parameter_dict()
@@ -1207,7 +1207,7 @@ class AutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVectorI
 
         # now we can also compute the rhs of the costate (based on the manually computed shooting equations)
         dot_pt = torch.zeros_like(pi)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             dot_pt[i, ...] = -self.dnl(qi[i, ...]) * torch.matmul(pi[i, ...], A)
 
         rhs['dot_p_q1'] = dot_pt
@@ -1242,10 +1242,10 @@ class AutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVectorI
 
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
-        At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        At = 1 / pi.shape[0] * At  # because of the mean in the Lagrangian multiplier
+        bt = 1 / pi.shape[0] * pi.sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict['weight'] = utils.divide_by_if_not_none(At.t(),weight_dict['weight'])
-- 
2.43.0


From 26cfac608135b845aa0ad8ade82e7e6877c55cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:10 +0000
Subject: [PATCH 27/43] fix: divide the third layer of the symmetrized up-down
 model by its own weight

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index dfd436f..e9e4231 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1831,7 +1831,7 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
 
         par_dict3 = p['l3'].get_parameter_dict()
         weight_dict3 = p['l3'].get_parameter_weight_dict()
-        par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict['weight'])
+        par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict3['weight'])
         par_dict3['bias'] = utils.divide_by_if_not_none(torch.mean(p3i, dim=0),weight_dict3['bias'])
         return p
 
-- 
2.43.0


From 57237c5b6db005efa7dbbb0c2e6e0eb26c180a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:12 +0000
Subject: [PATCH 28/43] fix: register the enlargement parameters of all handed
 over blocks (names collided with more than one block)

---
 neuro_shooting/shooting_blocks.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 25dae65..b093f1f 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -562,6 +562,14 @@ class ShootingBlockBase(nn.Module):
 
         return state_dict,costate_dict
 
+    @staticmethod
+    def _get_enlargement_parameter_name(enlargement_parameters,block_name,key):
+        # names need to be unique; hence include the block name if there is more than one pass-through block
+        if len(enlargement_parameters)>1:
+            return 'pt_enlarge_{}_{}'.format(key,block_name).replace('.','__')
+        else:
+            return 'pt_enlarge_' + key
+
     def register_pass_through_state_and_costate_enlargement_parameters(self,
                                                                        pass_through_state_dict_of_dicts_enlargement_parameters,
                                                                        pass_through_costate_dict_of_dicts_enlargement_parameters,
@@ -578,7 +586,7 @@ class ShootingBlockBase(nn.Module):
                                 print('INFO: Keeping new state enlargement parameters at zero for {}'.format(self._block_name))
                                 c_state_dict[k][0].requires_grad_(False).zero_()
                                 continue
-                            self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
+                            self.register_parameter(self._get_enlargement_parameter_name(pass_through_state_dict_of_dicts_enlargement_parameters,dk,k), c_state_dict[k][0])
                             print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
 
         if pass_through_costate_dict_of_dicts_enlargement_parameters is not None:
@@ -588,7 +596,7 @@ class ShootingBlockBase(nn.Module):
                 if c_costate_dict is not None:
                     for k in c_costate_dict:
                         if c_costate_dict[k] is not None:
-                            self.register_parameter('pt_enlarge_' + k, c_costate_dict[k][0])
+                            self.register_parameter(self._get_enlargement_parameter_name(pass_through_costate_dict_of_dicts_enlargement_parameters,dk,k), c_costate_dict[k][0])
                             print('INFO: registering enlargement costate parameters {} of size {} for block {}'.format(k,c_costate_dict[k][0].numel(),self._block_name))
 
     def _get_or_create_and_register_pass_through_enlargement_parameters(self,pass_through_state_dict_of_dicts,pass_through_costate_dict_of_dicts,*args,**kwargs):
-- 
2.43.0


From 34bcc35f6a22a1d2360b8dcc996227fcc0f961a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:14 +0000
Subject: [PATCH 29/43] fix: pass the pgf preamble as a string (lists are
 rejected by matplotlib)

---
 neuro_shooting/figure_settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/figure_settings.py b/neuro_shooting/figure_settings.py
index 092ea9f..6f7bcc6 100644
--- a/neuro_shooting/figure_settings.py
+++ b/neuro_shooting/figure_settings.py
@@ -13,10 +13,10 @@ def setup_pgf_plotting():
         'font.family': 'serif',
         'text.usetex': True,
         'pgf.rcfonts': False,
-        'pgf.preamble': [
+        'pgf.preamble': '\n'.join([
             '\\usepackage{amsmath}',  # load additional packages
             '\\usepackage{amssymb}',  # load additional packages
-        ]
+        ])
     }
 
     previous_rcsettings = dict()
-- 
2.43.0


From 948f2d42d3f9abb325d825ed05467de81236d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:04 +0000
Subject: [PATCH 30/43] fix: sweeping over no parameter is a single run instead
 of none

---
 neuro_shooting/command_line_execution_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index ba5b66a..8e55e29 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -17,7 +17,7 @@ def recursively_sweep_parameters(pars_to_sweep,par_dict=None,swept_parameter_lis
     if len(cur_keys)==0:
         #print('pars: {}'.format(par_dict))
         swept_parameter_list.append(copy.deepcopy(par_dict))
-        return par_dict
+        return swept_parameter_list
 
     first_key = cur_keys[0]
     # sweep over it
-- 
2.43.0


From a0314efd8541526c23e90f2c699c483905a1bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 31/43] fix: checkpointed integration also follows decreasing
 times

The matching of requested times and checkpoints assumed increasing times;
integrating backward in time dropped requested times or failed.
---
 neuro_shooting/generic_integrator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index e712214..b99f619 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -155,11 +155,13 @@ class GenericIntegrator(object):
 
         t_from = t[0]
         t_to = t[-1]
+        # times may also decrease (integration backward in time)
+        direction = 1 if t_to>=t_from else -1
 
         if self.nr_of_checkpoints is not None:
             checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2,dtype=t.dtype,device=t.device) # if we want one checkpoint we need three points, hence +2
         elif self.checkpointing_time_interval is not None:
-            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval,dtype=t.dtype,device=t.device)
+            checkpointing_time_points = torch.arange(t_from,t_to,direction*self.checkpointing_time_interval,dtype=t.dtype,device=t.device)
             if checkpointing_time_points[-1]!=t_to:
                 # append it
                 checkpointing_time_points = torch.cat((checkpointing_time_points, torch.tensor([t_to])), dim=0)
@@ -195,12 +197,12 @@ class GenericIntegrator(object):
             next_t = t[idx_t]
             next_cp_t = checkpointing_time_points[idx_checkpoint_t]
 
-            if next_cp_t>next_t:
+            if direction*next_cp_t>direction*next_t:
                 # case: just keep on adding this time-point to the current time-interval and retain it for the output
                 current_time_interval = torch.cat((current_time_interval,torch.tensor([next_t])))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([True])))
                 idx_t += 1
-            elif next_cp_t<next_t:
+            elif direction*next_cp_t<direction*next_t:
                 # case: this is the checkpoint we want, so finalize it and move on to the next one
                 current_time_interval = torch.cat((current_time_interval,torch.tensor([next_cp_t])))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([False])))
-- 
2.43.0


From 57e608f75353d96384756d36444062f4259b464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 32/43] fix: experiment scripts do not pass the removed verbose
 argument to the plateau scheduler

---
 demos/neurips20/simple_functional_mapping_example.py | 2 +-
 demos/neurips20/spiral.py                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/neurips20/simple_functional_mapping_example.py b/demos/neurips20/simple_functional_mapping_example.py
index 3e97568..a906e9b 100644
--- a/demos/neurips20/simple_functional_mapping_example.py
+++ b/demos/neurips20/simple_functional_mapping_example.py
@@ -134,7 +134,7 @@ def setup_optimizer_and_scheduler(params,lr=0.1, weight_decay=0):
     optimizer = optim.Adam(params, lr=lr, weight_decay=weight_decay)
 
     #scheduler = torch.optim.lr_scheduler.CosineAnnealingLR(optimizer, 3)
-    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer,verbose=True,factor=0.5)
+    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer,factor=0.5)
 
     return optimizer, scheduler
 
diff --git a/demos/neurips20/spiral.py b/demos/neurips20/spiral.py
index 5431c96..7505333 100644
--- a/demos/neurips20/spiral.py
+++ b/demos/neurips20/spiral.py
@@ -197,7 +197,7 @@ def setup_optimizer_and_scheduler(params,lr=0.1):
     optimizer = optim.Adam(params, lr=lr)
 
     #scheduler = torch.optim.lr_scheduler.CosineAnnealingLR(optimizer, 3)
-    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer,verbose=True)
+    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer)
 
     return optimizer, scheduler
 
-- 
2.43.0


From d43d2b06ba73879e511763f37b3f6d974a78ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 33/43] fix: experiment scripts get their evaluation batches
 with next()

---
 demos/neurips20/simple_functional_mapping_example.py |  6 +++---
 demos/neurips20/spiral.py                            | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/demos/neurips20/simple_functional_mapping_example.py b/demos/neurips20/simple_functional_mapping_example.py
index a906e9b..fda4aab 100644
--- a/demos/neurips20/simple_functional_mapping_example.py
+++ b/demos/neurips20/simple_functional_mapping_example.py
@@ -634,7 +634,7 @@ if __name__ == '__main__':
             with torch.no_grad():
                 # TODO: currently evaluates only based on one batch (100 points)
                 dataiter = iter(train_eval_loader)
-                train_eval_batch = dataiter.next()
+                train_eval_batch = next(dataiter)
                 batch_in, batch_out = train_eval_batch['input'], train_eval_batch['output']
 
                 loss, sim_loss, norm_loss, norm_penalty, pred_y = compute_loss(args=args, use_shooting=use_shooting,
@@ -674,7 +674,7 @@ if __name__ == '__main__':
 
     # get the data for final testing, there will only be one batch
     dataiter = iter(test_loader)
-    test_batch = dataiter.next()
+    test_batch = next(dataiter)
     test_batch_in, test_batch_out = test_batch['input'], test_batch['output']
 
     values_to_save = dict()
@@ -696,7 +696,7 @@ if __name__ == '__main__':
 
     # for visualization
     dataiter = iter(visualization_loader)
-    test_batch = dataiter.next()
+    test_batch = next(dataiter)
     visualization_batch_in, visualization_batch_out = test_batch['input'], test_batch['output']
 
     if use_shooting:
diff --git a/demos/neurips20/spiral.py b/demos/neurips20/spiral.py
index 7505333..5159519 100644
--- a/demos/neurips20/spiral.py
+++ b/demos/neurips20/spiral.py
@@ -578,7 +578,7 @@ if __name__ == '__main__':
             with torch.no_grad():
                 # TODO: currently evaluates only based on one batch
                 dataiter = iter(train_eval_loader)
-                train_eval_batch = dataiter.next()
+                train_eval_batch = next(dataiter)
                 batch_t = train_eval_loader.dataset.t
                 batch_y0, batch_y = train_eval_batch['y0'], train_eval_batch['y'].transpose(0,1)
 
@@ -606,7 +606,7 @@ if __name__ == '__main__':
             with torch.no_grad():
                 # TODO: currently evaluates only based on one batch
                 dataiter = iter(test_loader)
-                test_batch = dataiter.next()
+                test_batch = next(dataiter)
                 val_batch_t = test_loader.dataset.t
                 val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0,1)
 
@@ -634,7 +634,7 @@ if __name__ == '__main__':
         with torch.no_grad():
             # TODO: currently evaluates only based on one batch
             dataiter = iter(test_loader)
-            test_batch = dataiter.next()
+            test_batch = next(dataiter)
             val_batch_t = test_loader.dataset.t
             val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0,1)
             loss, sim_loss, norm_loss, norm_penalty, val_pred_y = compute_loss(args=args,
@@ -660,7 +660,7 @@ if __name__ == '__main__':
     with torch.no_grad():
         # TODO: currently evaluates only based on one batch
         dataiter = iter(short_range_test_loader)
-        test_batch = dataiter.next()
+        test_batch = next(dataiter)
         val_batch_t = short_range_test_loader.dataset.t
         val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0, 1)
         loss, sim_loss, norm_loss, norm_penalty, val_pred_y = compute_loss(args=args,
@@ -685,7 +685,7 @@ if __name__ == '__main__':
 
             # run the evaluation for the validation data and record it via the hook
             dataiter = iter(test_loader)
-            test_batch = dataiter.next()
+            test_batch = next(dataiter)
             val_batch_t = test_loader.dataset.t
             val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0,1)
 
@@ -716,7 +716,7 @@ if __name__ == '__main__':
 
         # run the evaluation for the validation data and record it via the hook
         dataiter = iter(short_range_test_loader)
-        test_batch = dataiter.next()
+        test_batch = next(dataiter)
         val_batch_t = short_range_test_loader.dataset.t
         val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0, 1)
 
-- 
2.43.0


From 5640c0e3dff3323e30b28a4a2cbffc8e246991d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 34/43] fix: saved experiment results contain the norm penalty
 instead of a second copy of the norm loss

---
 demos/neurips20/simple_functional_mapping_example.py | 2 +-
 demos/neurips20/spiral.py                            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/demos/neurips20/simple_functional_mapping_example.py b/demos/neurips20/simple_functional_mapping_example.py
index fda4aab..4fa7b2a 100644
--- a/demos/neurips20/simple_functional_mapping_example.py
+++ b/demos/neurips20/simple_functional_mapping_example.py
@@ -692,7 +692,7 @@ if __name__ == '__main__':
         values_to_save['test_loss'] = loss.item()
         values_to_save['sim_loss'] = sim_loss.item()
         values_to_save['norm_loss'] = norm_loss.item()
-        values_to_save['norm_penalty'] = norm_loss.item()
+        values_to_save['norm_penalty'] = norm_penalty.item()
 
     # for visualization
     dataiter = iter(visualization_loader)
diff --git a/demos/neurips20/spiral.py b/demos/neurips20/spiral.py
index 5159519..da4dc8a 100644
--- a/demos/neurips20/spiral.py
+++ b/demos/neurips20/spiral.py
@@ -649,7 +649,7 @@ if __name__ == '__main__':
             values_to_save['test_loss'] = loss.item()
             values_to_save['sim_loss'] = sim_loss.item()
             values_to_save['norm_loss'] = norm_loss.item()
-            values_to_save['norm_penalty'] = norm_loss.item()
+            values_to_save['norm_penalty'] = norm_penalty.item()
 
             vector_visualization.basic_visualize(shooting_block, val_batch_y, val_pred_y, val_batch_t, batch_y, pred_y,
                                                  batch_t, itr,
@@ -673,7 +673,7 @@ if __name__ == '__main__':
         values_to_save['short_range_test_loss'] = loss.item()
         values_to_save['short_range_sim_loss'] = sim_loss.item()
         values_to_save['short_range_norm_loss'] = norm_loss.item()
-        values_to_save['short_range_norm_penalty'] = norm_loss.item()
+        values_to_save['short_range_norm_penalty'] = norm_penalty.item()
 
     if args.validate_with_long_range:
         with torch.no_grad():
-- 
2.43.0


From 2f0330b54ecab5254fab0b05d5c2d94f97451904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 35/43] fix: functional mapping experiment also runs with the
 non-shooting networks

---
 demos/neurips20/simple_functional_mapping_example.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demos/neurips20/simple_functional_mapping_example.py b/demos/neurips20/simple_functional_mapping_example.py
index 4fa7b2a..c97866e 100644
--- a/demos/neurips20/simple_functional_mapping_example.py
+++ b/demos/neurips20/simple_functional_mapping_example.py
@@ -493,6 +493,7 @@ if __name__ == '__main__':
     )
 
     use_shooting = False
+    uses_particles = False
     integrator = None
     func = None
 
@@ -518,6 +519,7 @@ if __name__ == '__main__':
         print('Using DoubleResNetUpDown: weight = {}'.format(weight_decay))
         simple_resnet = sdnn.DoubleResNetUpDown(nr_of_layers=args.nr_of_layers, inflation_factor=inflation_factor)
     elif args.use_neural_ode:
+        weight_decay = 0.0
         print('Using neural ode')
         func = sdnn.ODESimpleFunc()
         optimizer = optim.RMSprop(func.parameters(), lr=1e-3)
-- 
2.43.0


From 3dc80ec0d8a4c7e5e724e3f1caaf744533c06f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 36/43] fix: spiral experiment hands the maximal integration
 time to the shooting block

---
 demos/neurips20/spiral.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/neurips20/spiral.py b/demos/neurips20/spiral.py
index da4dc8a..eb6ff01 100644
--- a/demos/neurips20/spiral.py
+++ b/demos/neurips20/spiral.py
@@ -131,7 +131,7 @@ def setup_shooting_block(integrator=None, shooting_model='updown', parameter_wei
                          optimize_over_data_initial_conditions_type='linear',
                          use_analytic_solution=True,
                          optional_weight=10,
-                         max_integraton_time=1.0):
+                         max_integration_time=1.0):
 
     if shooting_model=='updown':
         smodel = shooting_models.AutoShootingIntegrandModelUpDown(in_features=2, nonlinearity=nonlinearity,
@@ -513,7 +513,7 @@ if __name__ == '__main__':
                                           optimize_over_data_initial_conditions_type=args.optimize_over_data_initial_conditions_type,
                                           use_analytic_solution=not args.do_not_use_analytic_solution,
                                           optional_weight=args.optional_weight,
-                                          max_integraton_time=max_integration_time)
+                                          max_integration_time=max_integration_time)
 
 
     # run through the shooting block once (to get parameters as needed)
-- 
2.43.0


From fce99f0d4f4f2322ebc44b60ff309f37dcef1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 37/43] fix: figures of models without a higher order state do
 not need q2

---
 neuro_shooting/vector_visualization.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/neuro_shooting/vector_visualization.py b/neuro_shooting/vector_visualization.py
index f8cf200..afd931f 100644
--- a/neuro_shooting/vector_visualization.py
+++ b/neuro_shooting/vector_visualization.py
@@ -146,12 +146,15 @@ def _basic_visualize(shooting_block, val_y, val_pred_y, val_sim_time, train_y=No
         pars = shooting_block.state_dict()
         q1 = pars['q1'].detach().cpu().numpy()
         p_q1 = pars['p_q1'].detach().cpu().numpy()
-        q2 = pars['q2'].detach().cpu().numpy()
-        p_q2 = pars['p_q2'].detach().cpu().numpy()
 
         # now plot the information from the state variables
         plot_particles(q1=q1,p_q1=p_q1,ax=ax_lo)
-        plot_higher_order_state(q2=q2,p_q2=p_q2,ax=ax_ho)
+
+        # not all models have a higher order state
+        if 'q2' in pars:
+            q2 = pars['q2'].detach().cpu().numpy()
+            p_q2 = pars['p_q2'].detach().cpu().numpy()
+            plot_higher_order_state(q2=q2,p_q2=p_q2,ax=ax_ho)
 
     else:
 
@@ -228,11 +231,14 @@ def visualize_time_evolution(val_y, data,block_name, max_display=10, save_to_dir
 
     q1 = convert_list_of_np_arrays_into_np_array(data['{}.state.q1'.format(block_name)])
     p_q1 = convert_list_of_np_arrays_into_np_array(data['{}.costate.p_q1'.format(block_name)])
-    q2 = convert_list_of_np_arrays_into_np_array(data['{}.state.q2'.format(block_name)])
-    p_q2 = convert_list_of_np_arrays_into_np_array(data['{}.costate.p_q2'.format(block_name)])
+
+    # not all models have a higher order state
+    has_higher_order_state = '{}.state.q2'.format(block_name) in data
+    if has_higher_order_state:
+        q2 = convert_list_of_np_arrays_into_np_array(data['{}.state.q2'.format(block_name)])
+        p_q2 = convert_list_of_np_arrays_into_np_array(data['{}.costate.p_q2'.format(block_name)])
 
     data_q1 = convert_list_of_np_arrays_into_np_array(data['{}.data.q1'.format(block_name)])
-    data_q2 = convert_list_of_np_arrays_into_np_array(data['{}.data.q2'.format(block_name)])
 
     desired_to_time_pts = list(range(len(t)))
     step_size = 1
@@ -256,15 +262,14 @@ def visualize_time_evolution(val_y, data,block_name, max_display=10, save_to_dir
         current_data_q1 = data_q1[0:to_time_pt+1,...]
         current_q1 = q1[to_time_pt,...]
         current_p_q1 = p_q1[to_time_pt,...]
-        current_q2 = q2[to_time_pt,...]
-        current_p_q2 = p_q2[to_time_pt,...]
 
         # plot it without any additional information
         plot_trajectories(val_y, current_data_q1, itr='{:.2f}'.format(t[to_time_pt]), itr_name = 'time', ax=ax)
 
         # now plot the information from the state variables
         plot_particles(q1=current_q1, p_q1=current_p_q1, ax=ax_lo)
-        plot_higher_order_state(q2=current_q2, p_q2=current_p_q2, ax=ax_ho)
+        if has_higher_order_state:
+            plot_higher_order_state(q2=q2[to_time_pt,...], p_q2=p_q2[to_time_pt,...], ax=ax_ho)
 
         if save_to_directory is not None:
             current_filename = '{}-{:05d}.png'.format(file_prefix,itr)
-- 
2.43.0


From a813a027c2d24addcf1611bc160a207426798744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 38/43] fix: rotated MNIST experiment returns to the training
 mode after each evaluation

---
 demos/neurips20/rot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demos/neurips20/rot.py b/demos/neurips20/rot.py
index 2aaeb06..01c849c 100644
--- a/demos/neurips20/rot.py
+++ b/demos/neurips20/rot.py
@@ -329,6 +329,7 @@ if __name__ == '__main__':
     losses = defaultdict(list) 
     for it in range(args.niters):
 
+        model.train()
         it_sim_loss = 0
         it_npe_loss = 0 
         it_loss = 0
-- 
2.43.0


From 6821c86144699173b3c7e5b80ac0e834df9aa876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 39/43] fix: spiral experiment rejects time chunks of a single
 time point instead of looping forever

---
 demos/neurips20/spiral.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/demos/neurips20/spiral.py b/demos/neurips20/spiral.py
index eb6ff01..4ba1d6f 100644
--- a/demos/neurips20/spiral.py
+++ b/demos/neurips20/spiral.py
@@ -383,6 +383,9 @@ def get_time_chunks(t, chunk_time, start_time_chunk_from_zero=True):
 
     if chunk_time<=0:
         time_chunks.append(t)
+    elif chunk_time==1:
+        # subsequent chunks share a time point, so chunks of one time point would never advance
+        raise ValueError('Time chunks need to contain at least two time points.')
     else:
 
         last_t = len(t)
-- 
2.43.0


From a57129fd816977ed09934d879f552c04fc2d9cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:58 +0000
Subject: [PATCH 40/43] fix: states no velocity reads have a zero costate
 derivative instead of ending the run

---
 neuro_shooting/shooting_integrands.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 1315268..1948b80 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -864,6 +864,9 @@ class AutogradShootingIntegrandBase(ShootingIntegrandBase):
                                           retain_graph=True,
                                           allow_unused=True)
 
+        # states which do not influence the Lagrangian (allowed above) have a zero derivative
+        dot_costate_tuple = tuple(torch.zeros_like(q) if g is None else g for g, q in zip(dot_costate_tuple, state_tuple))
+
         # now we need to put these into a sorted dictionary
         dot_costate_dict_of_dicts = scd_utils.extract_dict_of_dicts_from_tuple_based_on_generic_dict_of_dicts(
             data_tuple=dot_costate_tuple,
-- 
2.43.0


From aa05cfea70926346317387914d2773e21a679cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:46 +0000
Subject: [PATCH 41/43] fix: derivatives of the softmax nonlinearity overflowed
 to NaN for large arguments

---
 neuro_shooting/activation_functions_and_derivatives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/activation_functions_and_derivatives.py b/neuro_shooting/activation_functions_and_derivatives.py
index c72c425..57cfbd7 100644
--- a/neuro_shooting/activation_functions_and_derivatives.py
+++ b/neuro_shooting/activation_functions_and_derivatives.py
@@ -2,11 +2,12 @@ import torch
 import torch.nn as nn
 
 def softmax(x,epsilon = 1.0):
-  return x*(torch.ones_like(x))/(torch.exp(-x*epsilon) + torch.ones_like(x))
+  # torch.sigmoid does not overflow for large negative x (as 1/(exp(-x)+1) does, resulting in NaN derivatives)
+  return x*torch.sigmoid(epsilon*x)
 
 
 def dsoftmax(x,epsilon = 1.0):
-  return epsilon*softmax(x,epsilon)*(torch.ones_like(x))/(torch.exp(epsilon*x) + torch.ones_like(x)) + (torch.ones_like(x))/(torch.exp(-x*epsilon) + torch.ones_like(x))
+  return epsilon*softmax(x,epsilon)*torch.sigmoid(-epsilon*x) + torch.sigmoid(epsilon*x)
 
 def drelu(x):
     # derivative of relu
-- 
2.43.0


From 22f61e369cba20f6194740fbd999467b9060fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:33 +0000
Subject: [PATCH 42/43] fix: backward passes of earlier calls used the data
 layout of the latest call (checkpointing, adjoint integration)

---
 neuro_shooting/shooting_blocks.py | 36 +++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index b093f1f..df0e77b 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -86,6 +86,35 @@ class ParticleFreeParameterFunc(object):
 
 
 
+class AssembledIntegrand(nn.Module):
+    """
+    Integrand together with the data layout of one particular integration. The layout needs to be remembered, because the
+    integrand is evaluated again in the backward pass (for checkpointing and for adjoint integration), at which point the
+    shooting block may already have been called with data of a different size.
+    """
+
+    def __init__(self,integrand,assembly_plans):
+        super(AssembledIntegrand, self).__init__()
+        self.integrand = integrand
+        self.assembly_plans = assembly_plans
+        self.data_concatenation_dim = integrand.get_data_concatenation_dim()
+
+    def get_adjoint_parameters(self):
+        return self.integrand.get_adjoint_parameters()
+
+    def forward(self,t,input):
+        current_layout = self.integrand.auto_assembly_plans, self.integrand.get_data_concatenation_dim()
+        self._set_layout(self.assembly_plans,self.data_concatenation_dim)
+        try:
+            return self.integrand(t,input)
+        finally:
+            self._set_layout(*current_layout)
+
+    def _set_layout(self,assembly_plans,data_concatenation_dim):
+        self.integrand.set_auto_assembly_plans(assembly_plans=assembly_plans)
+        self.integrand.set_data_concatenation_dim(data_concatenation_dim=data_concatenation_dim)
+
+
 class ShootingBlockBase(nn.Module):
 
     def __init__(self, name, shooting_integrand=None, shooting_integrand_name=None,
@@ -703,13 +732,16 @@ class ShootingBlockBase(nn.Module):
         # reset shooting integrand, this should be called at the beginning of a new integration
         self.shooting_integrand.reset()
 
+        # the integrand for this particular call
+        integrand = AssembledIntegrand(integrand=self.shooting_integrand,assembly_plans=assembly_plans)
+
         #integrate
         if self.integration_time_vector is not None:
-            res_all_times = self.integrator.integrate(func=self.shooting_integrand, x0=initial_conditions, t=self.integration_time_vector)
+            res_all_times = self.integrator.integrate(func=integrand, x0=initial_conditions, t=self.integration_time_vector)
             state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = self.shooting_integrand.disassemble_tensor(res_all_times,dim=1)
             res = self.shooting_integrand.disassemble(res_all_times,dim=1)
         else:
-            res_all_times = self.integrator.integrate(func=self.shooting_integrand, x0=initial_conditions, t=self.integration_time)
+            res_all_times = self.integrator.integrate(func=integrand, x0=initial_conditions, t=self.integration_time)
             res_final = res_all_times[-1, ...]
             state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = self.shooting_integrand.disassemble_tensor(res_final)
             # and get what should typically be returned (the transformed data)
-- 
2.43.0


From 29e5e5bba578003c6e60b5933bc8e27a0f33aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:06 +0000
Subject: [PATCH 43/43] fix: sweeps repeated finished runs when the output
 directory contains brackets

---
 neuro_shooting/experiment_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/experiment_utils.py b/neuro_shooting/experiment_utils.py
index 799a2ec..3af7c3a 100644
--- a/neuro_shooting/experiment_utils.py
+++ b/neuro_shooting/experiment_utils.py
@@ -131,7 +131,7 @@ def sweep_parameters(args,run_args_to_sweep,run_args_template,python_script='sim
             run_args['seed'] = seed
 
             # check if it already contains an output pt file. If so ignore.
-            pt_files = glob.glob(os.path.join(output_directory, '*.pt'), recursive=False)
+            pt_files = glob.glob(os.path.join(glob.escape(output_directory), '*.pt'), recursive=False)
             if (len(pt_files)>0) and do_not_recompute:
                 print('Found the following pt files {} in {}. SKIPPING.\n'.format(pt_files,output_directory))
             else:
-- 
2.43.0

