From 0452b3bc1122e4b7157b9e24e700728e2069b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 001/245] fix: convert starting solutions to private arrays

---
 mealpy/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 8b54ec7..46fc89a 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -132,6 +132,8 @@ class Optimizer:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
             if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
+                # Work on copies: the caller's data must not be shared with (and changed by) the agents
+                starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
                 if self.mode in self.AVAILABLE_MODES:
                     self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
                     self.pop = self.update_target_for_population(self.pop)
-- 
2.43.0


From 671523740715d51d3efc195d185ed6c5100d80d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 002/245] fix: Agent.copy must not share the solution array
 with the original

---
 mealpy/utils/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/agent.py b/mealpy/utils/agent.py
index e93d7ab..1f8f7da 100644
--- a/mealpy/utils/agent.py
+++ b/mealpy/utils/agent.py
@@ -28,7 +28,7 @@ class Agent:
             setattr(self, key, value)
 
     def copy(self) -> 'Agent':
-        agent = Agent(self.solution, self.target.copy(), **self.kwargs)
+        agent = Agent(np.array(self.solution), self.target.copy(), **self.kwargs)
         # Copy any changes made to the attributes
         for attr, value in vars(self).items():
             if attr not in ['target', 'solution', 'id', 'kwargs']:
-- 
2.43.0


From 53780e32e15b731aeb93b7ba3d470e9828058bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 003/245] fix: history keeps copies of the current best and
 worst agents

---
 mealpy/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 46fc89a..05c401b 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -624,11 +624,11 @@ class Optimizer:
         c_best, c_worst = sorted_pop[0], sorted_pop[-1]
         if save:
             ## Save current best
-            self.history.list_current_best.append(c_best)
+            self.history.list_current_best.append(c_best.copy())
             better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
             self.history.list_global_best.append(better)
             ## Save current worst
-            self.history.list_current_worst.append(c_worst)
+            self.history.list_current_worst.append(c_worst.copy())
             worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
             self.history.list_global_worst.append(worse)
             return sorted_pop, better
-- 
2.43.0


From c052a23edc8e852be45ce116ba6f70ae1a023433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 004/245] fix: count the function evaluations of the current
 run only

---
 mealpy/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 05c401b..54f47ea 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -59,7 +59,7 @@ class Optimizer:
 
         if self.name is None: self.name = self.__class__.__name__
         self.sort_flag = False
-        self.nfe_counter = 1  # The first one is tested in Problem class
+        self.nfe_counter = 0
         self.parameters, self.params_name_ordered = {}, None
         self.is_parallelizable = True
         self.generator, self.rng = None, None     # random module for numpy and random (python)
@@ -177,6 +177,7 @@ class Optimizer:
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.nfe_counter = 0    # Count the evaluations of this run only
 
     def check_mode_and_workers(self, mode, n_workers):
         self.mode = self.validator.check_str("mode", mode, self.SUPPORTED_MODES)
-- 
2.43.0


From b82174ea0b74825c875aeac8c913c4b80246cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 005/245] fix: exploration percentage is not NaN when diversity
 is always zero

---
 mealpy/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 54f47ea..ceab4c2 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -309,7 +309,10 @@ class Optimizer:
         """
         self.history.epoch = len(self.history.list_diversity)
         div_max = np.max(self.history.list_diversity)
-        self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / div_max)
+        if div_max == 0:    # The population was never spread: there was no exploration at all
+            self.history.list_exploration = np.zeros(len(self.history.list_diversity))
+        else:
+            self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / div_max)
         self.history.list_exploitation = 100 - self.history.list_exploration
         self.history.list_global_best = self.history.list_global_best[1:]
         self.history.list_current_best = self.history.list_current_best[1:]
-- 
2.43.0


From b8c662c24ad4f192331002521460d8c77ac656b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 006/245] fix: initial population must not depend on worker
 scheduling in the parallel modes

---
 mealpy/optimizer.py            | 46 ++++++++++++++++++----------------
 mealpy/swarm_based/BFO.py      |  4 +--
 mealpy/swarm_based/BSA.py      |  4 +--
 mealpy/swarm_based/ESOA.py     |  4 +--
 mealpy/swarm_based/PSO.py      | 20 ++++-----------
 mealpy/swarm_based/SLO.py      |  5 ++--
 mealpy/swarm_based/SRSR.py     |  4 +--
 mealpy/swarm_based/SSpiderA.py |  8 +++---
 8 files changed, 39 insertions(+), 56 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index ceab4c2..ee79819 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -134,11 +134,7 @@ class Optimizer:
             if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
                 # Work on copies: the caller's data must not be shared with (and changed by) the agents
                 starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
-                if self.mode in self.AVAILABLE_MODES:
-                    self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
-                    self.pop = self.update_target_for_population(self.pop)
-                else:
-                    self.pop = [self.generate_agent(solution) for solution in starting_solutions]
+                self.pop = self._generate_agents(starting_solutions)
             else:
                 raise ValueError("Invalid starting_solutions. It should be a list of positions or 2D matrix of positions only.")
         else:
@@ -339,6 +335,16 @@ class Optimizer:
         """
         agent = self.generate_empty_agent(solution)
         agent.target = self.get_target(agent.solution)
+        return self.complete_agent(agent)
+
+    def complete_agent(self, agent: Agent) -> Agent:
+        """
+        Set the attributes that depend on the target of a newly generated agent.
+        In each optimizer, this function can be overridden
+
+        Args:
+            agent: The new agent, which already has solution and target
+        """
         return agent
 
     def generate_population(self, pop_size: int = None) -> List[Agent]:
@@ -351,22 +357,20 @@ class Optimizer:
         """
         if pop_size is None:
             pop_size = self.pop_size
-        pop = []
-        if self.mode == "thread":
-            with parallel.ThreadPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a thread finished their job (not by order)
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-        elif self.mode == "process":
-            with parallel.ProcessPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a cpu finished their job (not by order).
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-        else:
-            pop = [self.generate_agent() for _ in range(0, pop_size)]
-        return pop
+        return self._generate_agents([None] * pop_size)
+
+    def _generate_agents(self, solutions: List) -> List[Agent]:
+        """
+        Generate one agent for each element of solutions (None means a random solution), in that order.
+
+        In the parallel modes the solutions are drawn here and only the objective function is called by the workers. Because
+        the workers don't draw random numbers, the population doesn't depend on the mode or on which worker finished first.
+        """
+        if self.mode in self.PARALLEL_MODES and type(self).generate_agent is Optimizer.generate_agent:
+            pop = [self.generate_empty_agent(solution) for solution in solutions]
+            pop = self.update_target_for_population(pop)
+            return [self.complete_agent(agent) for agent in pop]
+        return [self.generate_agent(solution) for solution in solutions]
 
     def amend_solution(self, solution: np.ndarray) -> np.ndarray:
         """
diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index c498f5b..300a906 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -259,9 +259,7 @@ class ABFO(Optimizer):
         local_solution = solution.copy()
         return Agent(solution=solution, nutrients=nutrients, local_solution=local_solution)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/BSA.py b/mealpy/swarm_based/BSA.py
index c9eae7b..8b439e3 100644
--- a/mealpy/swarm_based/BSA.py
+++ b/mealpy/swarm_based/BSA.py
@@ -101,9 +101,7 @@ class OriginalBSA(Optimizer):
         local_position = solution.copy()
         return Agent(solution=solution, local_solution=local_position)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/ESOA.py b/mealpy/swarm_based/ESOA.py
index da641ed..45bf437 100644
--- a/mealpy/swarm_based/ESOA.py
+++ b/mealpy/swarm_based/ESOA.py
@@ -70,7 +70,7 @@ class OriginalESOA(Optimizer):
         v = np.zeros(self.problem.n_dims)
         return Agent(solution=solution, weights=weights, local_solution=solution.copy(), m=m, v=v)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
+    def complete_agent(self, agent: Agent) -> Agent:
         """
             ID_WEI = 2
             ID_LOC_X = 3
@@ -79,8 +79,6 @@ class OriginalESOA(Optimizer):
             ID_M = 6
             ID_V = 7
         """
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
         agent.local_target = agent.target.copy()
         agent.g = (np.sum(agent.weights * agent.solution) - agent.target.fitness) * agent.solution
         return agent
diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index 9ccd223..72890dd 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -85,9 +85,7 @@ class OriginalPSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -193,9 +191,7 @@ class AIW_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -311,9 +307,7 @@ class LDW_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -408,9 +402,7 @@ class P_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -745,9 +737,7 @@ class CL_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/SLO.py b/mealpy/swarm_based/SLO.py
index 37c9647..2363dca 100644
--- a/mealpy/swarm_based/SLO.py
+++ b/mealpy/swarm_based/SLO.py
@@ -150,9 +150,8 @@ class ModifiedSLO(Optimizer):
         local_pos = self.correct_solution(local_pos)
         return Agent(solution=solution, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
+        target = agent.target
         local_target = self.get_target(agent.local_solution)
         if self.compare_target(target, local_target, self.problem.minmax):
             t1 = agent.local_solution.copy()
diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 4aebe28..49649bf 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -65,9 +65,7 @@ class OriginalSRSR(Optimizer):
         target_move = 0
         return Agent(solution=solution, mu=mu, sigma=sigma, solution_new=x_new, target_move=target_move)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.target_new = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 8bf4b70..c85e695 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -98,15 +98,13 @@ class DevSSpiderA(Optimizer):
         mask = np.zeros(self.problem.n_dims)
         return Agent(solution=solution, target_solution=target_solution, local_vector=local_vector, mask=mask)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
+    def complete_agent(self, agent: Agent) -> Agent:
         """
-        Generate new agent with full information
+        Set the intensity of a new agent
 
         Args:
-            solution (np.ndarray): The solution
+            agent: The new agent
         """
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
         agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
         return agent
 
-- 
2.43.0


From 5b211847d7412614cfbf8a414da3195fb0326888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 007/245] fix: correct_solution must not let undefined (NaN)
 coordinates through

---
 mealpy/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index ee79819..335ff07 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -397,6 +397,10 @@ class Optimizer:
             The correct solution that can be used to calculate target
         """
         solution = self.amend_solution(solution)
+        undefined = np.isnan(solution)
+        if np.any(undefined):
+            # A degenerate population (e.g. all fitness equal) can lead to 0/0, such coordinates are drawn again
+            solution = np.where(undefined, self.generator.uniform(self.problem.lb, self.problem.ub), solution)
         return self.problem.correct_solution(solution)
 
     def update_target_for_population(self, pop: List[Agent] = None) -> List[Agent]:
-- 
2.43.0


From d5db00c8247d9926e121dbdfa04471ccf786910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 008/245] fix: tournament selection needs at least as many
 contestants as outputs

---
 mealpy/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 335ff07..cefe04d 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -720,6 +720,7 @@ class Optimizer:
         """
         if 0 < k_way < 1:
             k_way = int(k_way * len(pop))
+        k_way = min(max(k_way, output), len(pop))   # A tournament needs at least as many contestants as winners
         list_id = self.generator.choice(range(len(pop)), k_way, replace=False)
         list_parents = [[idx, pop[idx].target.fitness] for idx in list_id]
         if self.problem.minmax == "min":
-- 
2.43.0


From eeeff75a507fab3b73c76a03c7805b9875ad7951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 009/245] fix: GA mutation must not change the selected parents
 in place

---
 mealpy/evolutionary_based/GA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 550a084..89b0d5f 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -142,7 +142,7 @@ class BaseGA(Optimizer):
             id_c1, id_c2 = self.generator.choice(range(self.pop_size), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(self.pop, k_way=self.k_way, output=2)
-        return self.pop[id_c1].solution, self.pop[id_c2].solution
+        return self.pop[id_c1].solution.copy(), self.pop[id_c2].solution.copy()
 
     def selection_process_00__(self, pop_selected):
         """
@@ -168,7 +168,7 @@ class BaseGA(Optimizer):
             id_c1, id_c2 = self.generator.choice(range(len(pop_selected)), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(pop_selected, k_way=self.k_way, output=2)
-        return pop_selected[id_c1].solution, pop_selected[id_c2].solution
+        return pop_selected[id_c1].solution.copy(), pop_selected[id_c2].solution.copy()
 
     def selection_process_01__(self, pop_dad, pop_mom):
         """
@@ -192,7 +192,7 @@ class BaseGA(Optimizer):
         else:   ## tournament
             id_c1 = self.get_index_kway_tournament_selection(pop_dad, k_way=self.k_way, output=1)[0]
             id_c2 = self.get_index_kway_tournament_selection(pop_mom, k_way=self.k_way, output=1)[0]
-        return pop_dad[id_c1].solution, pop_mom[id_c2].solution
+        return pop_dad[id_c1].solution.copy(), pop_mom[id_c2].solution.copy()
 
     def crossover_process__(self, dad, mom):
         """
-- 
2.43.0


From 6a7e63b7d363e0298142697e8e0732606443ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 010/245] fix: GA roulette selection of two parents can loop
 forever

---
 mealpy/evolutionary_based/GA.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 89b0d5f..a31b993 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -135,9 +135,9 @@ class BaseGA(Optimizer):
         """
         if self.selection == "roulette":
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
-            id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            # Spin the wheel without the first parent (one sector can hold the whole probability, so don't spin until they differ)
+            id_c2 = self.get_index_roulette_wheel_selection(np.delete(list_fitness, id_c1))
+            id_c2 = id_c2 + 1 if id_c2 >= id_c1 else id_c2
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(self.pop_size), 2, replace=False)
         else:   ## tournament
@@ -161,9 +161,9 @@ class BaseGA(Optimizer):
         if self.selection == "roulette":
             list_fitness = np.array([agent.target.fitness for agent in pop_selected])
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
-            id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            # Spin the wheel without the first parent (one sector can hold the whole probability, so don't spin until they differ)
+            id_c2 = self.get_index_roulette_wheel_selection(np.delete(list_fitness, id_c1))
+            id_c2 = id_c2 + 1 if id_c2 >= id_c1 else id_c2
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(len(pop_selected)), 2, replace=False)
         else:   ## tournament
-- 
2.43.0


From 9cf69aac2314c4622db731ac6077ec71b2f2a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 011/245] fix: GA crossover and mutation operators fail in one
 to three dimensions

---
 mealpy/evolutionary_based/GA.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index a31b993..e18dd44 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -212,11 +212,12 @@ class BaseGA(Optimizer):
         if self.crossover == "arithmetic":
             w1, w2 = self.crossover_arithmetic(dad, mom)
         elif self.crossover == "one_point":
-            cut = self.generator.integers(1, self.problem.n_dims-1)
+            cut = self.generator.integers(1, max(2, self.problem.n_dims-1))
             w1 = np.concatenate([dad[:cut], mom[cut:]])
             w2 = np.concatenate([mom[:cut], dad[cut:]])
         elif self.crossover == "multi_points":
-            idxs = self.generator.choice(range(1, self.problem.n_dims-1), 2, replace=False)
+            points = range(1, self.problem.n_dims-1) if self.problem.n_dims > 3 else range(0, self.problem.n_dims+1)
+            idxs = self.generator.choice(points, 2, replace=False)
             cut1, cut2 = np.min(idxs), np.max(idxs)
             w1 = np.concatenate([dad[:cut1], mom[cut1:cut2], dad[cut2:]])
             w2 = np.concatenate([mom[:cut1], dad[cut1:cut2], mom[cut2:]])
@@ -248,6 +249,8 @@ class BaseGA(Optimizer):
             np.array: The mutated vector of the child
         """
 
+        if self.mutation != "flip" and self.problem.n_dims < 2:
+            return child        # Nothing to exchange in one dimension
         if self.mutation_multipoints:
             if self.mutation == "swap":
                 for idx in range(self.problem.n_dims):
@@ -430,6 +433,8 @@ class SingleGA(BaseGA):
         Returns:
             np.array: The mutated vector of the child
         """
+        if self.mutation != "flip" and self.problem.n_dims < 2:
+            return child        # Nothing to exchange in one dimension
         if self.mutation == "swap":
             idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
             child[idx1], child[idx2] = child[idx2], child[idx1]
@@ -682,6 +687,8 @@ class MultiGA(BaseGA):
         Returns:
             np.array: The mutated vector of the child
         """
+        if self.mutation == "swap" and self.problem.n_dims < 2:
+            return child        # Nothing to exchange in one dimension
         if self.mutation == "swap":
             for idx in range(self.problem.n_dims):
                 idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
-- 
2.43.0


From 230d72575f4fdb6f14f28ee0c134de28c187e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 012/245] fix: GA creates too few children for an odd
 population size

---
 mealpy/evolutionary_based/GA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index e18dd44..83a51bd 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -310,7 +310,7 @@ class BaseGA(Optimizer):
         """
         list_fitness = np.array([agent.target.fitness for agent in self.pop])
         pop_new = []
-        for i in range(0, int(self.pop_size/2)):
+        for i in range(0, int(np.ceil(self.pop_size/2))):
             ### Selection
             child1, child2 = self.selection_process__(list_fitness)
 
-- 
2.43.0


From 9a74a32478a0d08d7376384337b4092dbc0ae5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 013/245] fix: OriginalGA never evolved its population

---
 mealpy/evolutionary_based/GA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 83a51bd..07965b3 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -822,7 +822,7 @@ class EliteMultiGA(MultiGA):
             self.pop = self.update_target_for_population(pop_new)
 
 
-class OriginalGA(Optimizer):
+class OriginalGA(BaseGA):
     """
     The fully tuned version of: Genetic Algorithm (GA)
 
-- 
2.43.0


From ae8322e2be7561b62c23e5f6c30779bd44c8ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 014/245] fix: AO divides by zero with a single epoch

---
 mealpy/swarm_based/AO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/AO.py b/mealpy/swarm_based/AO.py
index 5152d10..fab3078 100644
--- a/mealpy/swarm_based/AO.py
+++ b/mealpy/swarm_based/AO.py
@@ -79,7 +79,7 @@ class OriginalAO(Optimizer):
         phi = -w * dim_list + phi0
         x = r * np.sin(phi)  # Eq.(9)
         y = r * np.cos(phi)  # Eq.(10)
-        QF = epoch ** ((2 * self.generator.random() - 1) / (1 - self.epoch) ** 2)  # Eq.(15)        Quality function
+        QF = epoch ** ((2 * self.generator.random() - 1) / max(1, (1 - self.epoch) ** 2))  # Eq.(15)        Quality function
         pop_new = []
         for idx in range(0, self.pop_size):
             x_mean = np.mean(np.array([agent.solution for agent in self.pop]), axis=0)
@@ -182,7 +182,7 @@ class AAO(Optimizer):
         phi = -w * dim_list + phi0
         x = r * np.sin(phi)  # Eq.(9)
         y = r * np.cos(phi)  # Eq.(10)
-        QF = epoch ** ((2 * self.generator.random() - 1) / (1 - self.epoch) ** 2)  # Eq.(15)        Quality function
+        QF = epoch ** ((2 * self.generator.random() - 1) / max(1, (1 - self.epoch) ** 2))  # Eq.(15)        Quality function
         pop_new = []
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 4de7854c5d9c95354bed540a6b7262402d994662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 015/245] fix: DandelionO divides by zero with a single epoch

---
 mealpy/swarm_based/DandelionO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/DandelionO.py b/mealpy/swarm_based/DandelionO.py
index fb00f9a..acb7c4d 100644
--- a/mealpy/swarm_based/DandelionO.py
+++ b/mealpy/swarm_based/DandelionO.py
@@ -72,7 +72,7 @@ class OriginalDandelionO(Optimizer):
         alpha = self.generator.random() * ((epoch / self.epoch)**2 - 2.0 * epoch / self.epoch + 1)
 
         # Eq. (11) Local search domain factor k
-        aa = 1.0 / (self.epoch ** 2 - 2 *self.epoch + 1)
+        aa = 1.0 / max(1, self.epoch ** 2 - 2 *self.epoch + 1)
         bb = -2 * aa
         cc = 1 - aa - bb
         kk = 1 - self.generator.random() * (cc + aa*epoch**2 + bb * epoch)
-- 
2.43.0


From 814045232c5d179e61fe305385c6e15b3f1b789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 016/245] fix: BFO loses an agent in every reproduction step
 when the population size is odd

---
 mealpy/swarm_based/BFO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 300a906..d822a7b 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -164,7 +164,8 @@ class OriginalBFO(Optimizer):
                     sum_nutrients += self.pop[idx].cost
                 self.pop[idx].nutrients = sum_nutrients
             cells = sorted(self.pop, key=lambda cell: cell.nutrients)
-            self.pop = cells[0:self.half_pop_size].copy() + cells[0:self.half_pop_size].copy()
+            # The better half of bacteria reproduces (with an odd population size, the middle one survives without a child)
+            self.pop = cells[0:self.pop_size - self.half_pop_size] + self.duplicate_pop(cells[0:self.half_pop_size])
             for idc in range(self.pop_size):
                 if self.generator.random() < self.p_eliminate:
                     self.pop[idc] = self.generate_agent()
-- 
2.43.0


From 25d518c8632866ff3083c5d1346299c4c51d36d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 017/245] fix: ABFO overwrites its step size parameters, so a
 second solve uses other values

---
 mealpy/swarm_based/BFO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index d822a7b..4603763 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -250,8 +250,8 @@ class ABFO(Optimizer):
         self.sort_flag = False
 
     def initialize_variables(self):
-        self.C_s = self.C_s * (self.problem.ub - self.problem.lb)
-        self.C_e = self.C_e * (self.problem.ub - self.problem.lb)
+        self.step_start = self.C_s * (self.problem.ub - self.problem.lb)
+        self.step_end = self.C_e * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
@@ -266,7 +266,7 @@ class ABFO(Optimizer):
 
     def update_step_size__(self, pop=None, idx=None):
         total_fitness = np.sum([agent.target.fitness for agent in pop])
-        step_size = self.C_s - (self.C_s - self.C_e) * pop[idx].target.fitness / total_fitness
+        step_size = self.step_start - (self.step_start - self.step_end) * pop[idx].target.fitness / total_fitness
         step_size = step_size / self.pop[idx].nutrients if self.pop[idx].nutrients > 0 else step_size
         return step_size
 
-- 
2.43.0


From 4a58c9fa9d090d3a8fcb79abdbd08cf25a4b9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 018/245] fix: ABFO never refills its population after removing
 duplicates

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 4603763..7589e99 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -313,7 +313,7 @@ class ABFO(Optimizer):
         ## Balance the population by adding more agents or remove some agents
         n_agents = len(self.pop) - self.pop_size
         if n_agents < 0:
-            for idx in range(0, n_agents):
+            for idx in range(0, -n_agents):
                 agent = self.generate_agent()
                 self.pop.append(agent)
         elif n_agents > 0:
-- 
2.43.0


From 3385f58ff2b4092a22bc0c6e488bf190469a7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 019/245] fix: ABFO divides by zero when N_adapt is 0

---
 mealpy/swarm_based/BFO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 7589e99..d77cadd 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -294,13 +294,13 @@ class ABFO(Optimizer):
                         self.pop[idx].update(local_solution=pos_new.copy(), local_target=agent.target.copy())
                 else:
                     self.pop[idx].nutrients -= 1
-            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / self.N_adapt)):
+            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / max(1, self.N_adapt))):
                 tt = self.generator.normal(0, 1, self.problem.n_dims)
                 pos_new = tt * self.pop[idx].solution + (1 - tt) * (self.g_best.solution - self.pop[idx].solution)
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 self.pop.append(agent)
-            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / self.N_adapt))
+            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / max(1, self.N_adapt)))
             if self.pop[idx].nutrients < nut_min or self.generator.random() < self.p_eliminate:
                 self.pop[idx] = self.generate_agent()
         ## Make sure the population does not have duplicates.
-- 
2.43.0


From 36b52310fcf8f761692ca879642832df2d75b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 020/245] fix: AdaptiveBA accepts a pulse rate range that it
 can't draw from

---
 mealpy/swarm_based/BA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BA.py b/mealpy/swarm_based/BA.py
index 85a6d19..77646a1 100644
--- a/mealpy/swarm_based/BA.py
+++ b/mealpy/swarm_based/BA.py
@@ -175,7 +175,7 @@ class AdaptiveBA(Optimizer):
         self.loudness_min = self.validator.check_float("loudness_min", loudness_min, [0.5, 1.5])
         self.loudness_max = self.validator.check_float("loudness_max", loudness_max, [1.5, 3.0])
         self.pr_min = self.validator.check_float("pr_min", pr_min, [-10., 10.])
-        self.pr_max = self.validator.check_float("pr_max", pr_max, [-10., 10.])
+        self.pr_max = self.validator.check_float("pr_max", pr_max, [self.pr_min, 10.])
         self.pf_min = self.validator.check_float("pf_min", pf_min, [-10., 10.])
         self.pf_max = self.validator.check_float("pf_max", pf_max, [0., 10.])
         self.alpha = self.gamma = 0.9
-- 
2.43.0


From 726a1b518dc80461a7f4914a1a167fa7a27d4083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 021/245] fix: CleverBookBeesA never searches the last
 dimension and fails in one dimension

---
 mealpy/swarm_based/BeesA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index d78d976..a2c8267 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -96,7 +96,7 @@ class CleverBookBeesA(Optimizer):
         """
         pop_neigh = []
         for idx in range(0, neigh_size):
-            t1 = self.generator.integers(0, len(parent.solution) - 1)
+            t1 = self.generator.integers(0, len(parent.solution))
             new_bee = parent.solution.copy()
             new_bee[t1] = (parent.solution[t1] + self.generator.uniform() * self.patch_size) if self.generator.uniform() < 0.5 \
                 else (parent.solution[t1] - self.generator.uniform() * self.patch_size)
-- 
2.43.0


From 7a26156df84669fc1cc94d7d1c2f756669e7d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 022/245] fix: bees dance must not change the solution of the
 parent in place

---
 mealpy/swarm_based/BeesA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index a2c8267..d797d3e 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -215,6 +215,7 @@ class OriginalBeesA(Optimizer):
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
+        position = position.copy()     # The parent must not be changed
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
@@ -329,6 +330,7 @@ class ProbBeesA(Optimizer):
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(list(range(0, self.problem.n_dims)))
+        position = position.copy()     # The parent must not be changed
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
-- 
2.43.0


From fb0f2021f0694d54c5e6946d7c11f26ef69e4423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 023/245] fix: derive the bee counts and dance radius of BeesA
 from the parameters of each solve

---
 mealpy/swarm_based/BeesA.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index d797d3e..35dcffe 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -205,13 +205,16 @@ class OriginalBeesA(Optimizer):
         self.dance_reduction = self.validator.check_float("dance_reduction", dance_reduction, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "selected_site_ratio", "elite_site_ratio", "selected_site_bee_ratio", 
                              "elite_site_bee_ratio", "dance_radius", "dance_reduction"])
+        self.sort_flag = True
+
+    def initialize_variables(self):
         # Initial Value of Dance Radius
         self.dyn_radius = self.dance_radius
         self.n_selected_bees = int(round(self.selected_site_ratio * self.pop_size))
         self.n_elite_bees = int(round(self.elite_site_ratio * self.n_selected_bees))
-        self.n_selected_bees_local = int(round(self.selected_site_bee_ratio * self.pop_size))
-        self.n_elite_bees_local = int(round(self.elite_site_bee_ratio * self.n_selected_bees_local))
-        self.sort_flag = True
+        # At least one bee searches each selected site
+        self.n_selected_bees_local = max(1, int(round(self.selected_site_bee_ratio * self.pop_size)))
+        self.n_elite_bees_local = max(1, int(round(self.elite_site_bee_ratio * self.n_selected_bees_local)))
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
@@ -324,6 +327,8 @@ class ProbBeesA(Optimizer):
         self.dance_reduction = self.validator.check_float("dance_reduction", dance_reduction, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "recruited_bee_ratio", "dance_radius", "dance_reduction"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         # Initial Value of Dance Radius
         self.dyn_radius = self.dance_radius
         self.recruited_bee_count = int(round(self.recruited_bee_ratio * self.pop_size))
-- 
2.43.0


From 964f585032ac2a62088abea6d15a80f9393174d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 024/245] fix: BSO fails when the population size is not a
 multiple of the number of clusters

---
 mealpy/human_based/BSO.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mealpy/human_based/BSO.py b/mealpy/human_based/BSO.py
index 0e7ecf6..df4caab 100644
--- a/mealpy/human_based/BSO.py
+++ b/mealpy/human_based/BSO.py
@@ -69,9 +69,11 @@ class ImprovedBSO(Optimizer):
         self.p4 = self.validator.check_float("p4", p4, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "m_clusters", "p1", "p2", "p3", "p4"])
         self.sort_flag = False
-        self.m_solution = int(self.pop_size / self.m_clusters)
         self.pop_group, self.centers = None, None
 
+    def initialize_variables(self):
+        self.m_solution = int(self.pop_size / self.m_clusters)
+
     def find_cluster__(self, pop_group):
         centers = []
         for idx in range(0, self.m_clusters):
@@ -97,7 +99,7 @@ class ImprovedBSO(Optimizer):
             idx = self.generator.integers(0, self.m_clusters)
             self.centers[idx] = self.generate_agent()
         pop_group = self.pop_group
-        for idx in range(0, self.pop_size):  # Generate new individuals
+        for idx in range(0, self.m_clusters * self.m_solution):  # Generate new individuals
             cluster_id = int(idx / self.m_solution)
             location_id = int(idx % self.m_solution)
 
@@ -209,7 +211,7 @@ class OriginalBSO(ImprovedBSO):
             idx = self.generator.integers(0, self.m_clusters)
             self.centers[idx] = self.generate_agent()
         pop_group = self.pop_group
-        for idx in range(0, self.pop_size):  # Generate new individuals
+        for idx in range(0, self.m_clusters * self.m_solution):  # Generate new individuals
             cluster_id = int(idx / self.m_solution)
             location_id = int(idx % self.m_solution)
             if self.generator.uniform() < self.p2:  # p_6b
-- 
2.43.0


From a25a8d083ab928f4d4d8619ce6cca9f6e29d1acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 025/245] fix: CA needs at least one accepted individual in the
 belief space

---
 mealpy/human_based/CA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CA.py b/mealpy/human_based/CA.py
index 1919c0f..4017464 100644
--- a/mealpy/human_based/CA.py
+++ b/mealpy/human_based/CA.py
@@ -71,7 +71,7 @@ class OriginalCA(Optimizer):
             "lb": self.problem.lb,
             "ub": self.problem.ub,
         }
-        self.dyn_accepted_num = int(self.accepted_rate * self.pop_size)
+        self.dyn_accepted_num = max(1, int(self.accepted_rate * self.pop_size))
         # update situational knowledge (g_best here is an element inside belief space)
 
     def create_faithful__(self, lb, ub):
-- 
2.43.0


From c34d07c2373d8adaf8974c828760b4d69b51a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 026/245] fix: COA fails with packs of two coyotes

---
 mealpy/swarm_based/COA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index fd65e0d..0072931 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -101,7 +101,7 @@ class OriginalCOA(Optimizer):
             #  Update coyotes' social condition
             pop_new = []
             for i in range(self.n_coyotes):
-                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=False)
+                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=self.n_coyotes < 3)
                 # Try to update the social condition according to the alpha and the pack tendency(Eq. 12)
                 pos_new = self.pop_group[p][i].solution + self.generator.random() * (self.pop_group[p][0].solution - self.pop_group[p][rc1].solution) + \
                           self.generator.random() * (tendency - self.pop_group[p][rc2].solution)
-- 
2.43.0


From eb437747500763195d9658733fb873b1f260300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 027/245] fix: CRO crossover fails in one dimension

---
 mealpy/evolutionary_based/CRO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index fd5c5dc..f15b4f4 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -119,6 +119,8 @@ class OriginalCRO(Optimizer):
 
     ### Crossover
     def multi_point_cross__(self, pos1, pos2):
+        if len(pos1) < 2:       # There is nothing to exchange in one dimension
+            return self.correct_solution(pos1.copy())
         p1, p2 = self.generator.choice(list(range(len(pos1))), 2, replace=False)
         start, end = min(p1, p2), max(p1, p2)
         pos_new = np.concatenate((pos1[:start], pos2[start:end], pos1[end:]), axis=0)
-- 
2.43.0


From 4677bb21a8b5150f2970808b79158d04a40d5172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 028/245] fix: CSO tournament needs no more cats than the
 seeking memory holds

---
 mealpy/swarm_based/CSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CSO.py b/mealpy/swarm_based/CSO.py
index 5415e64..44a996e 100644
--- a/mealpy/swarm_based/CSO.py
+++ b/mealpy/swarm_based/CSO.py
@@ -138,7 +138,7 @@ class OriginalCSO(Optimizer):
         if self.selected_strategy == 0:  # Best fitness-self
             cat, _ = self.get_best_agent(candidate_cats, self.problem.minmax)
         elif self.selected_strategy == 1:  # Tournament
-            k_way = 4
+            k_way = min(4, self.smp)
             idx = self.generator.choice(range(0, self.smp), k_way, replace=False)
             cats_k_way = [candidate_cats[_] for _ in idx]
             cat, _ = self.get_best_agent(cats_k_way, self.problem.minmax)
-- 
2.43.0


From e3982bd42c0bca6d08492d3d80f410f1de59fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 029/245] fix: DBO keeps the previous positions of an earlier
 solve

---
 mealpy/swarm_based/DBO.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/DBO.py b/mealpy/swarm_based/DBO.py
index 0a40f02..492a0c4 100644
--- a/mealpy/swarm_based/DBO.py
+++ b/mealpy/swarm_based/DBO.py
@@ -74,9 +74,8 @@ class OriginalDBO(Optimizer):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        # Initialize previous positions x(t−1) on the first call
-        if self._prev_positions is None:
-            self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
+        # Initialize previous positions x(t−1) for this run
+        self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
 
     def evolve(self, epoch: int):
         """
-- 
2.43.0


From 051f9da05defb26d85705f4155a251aa487831e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 030/245] fix: DOA indexes the bounds by agent instead of by
 dimension

---
 mealpy/human_based/DOA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/DOA.py b/mealpy/human_based/DOA.py
index a98dbae..1213c1f 100644
--- a/mealpy/human_based/DOA.py
+++ b/mealpy/human_based/DOA.py
@@ -135,11 +135,11 @@ class OriginalDOA(Optimizer):
             for idx in range(self.pop_size):
                 km = max(2, int(np.ceil(self.problem.n_dims / 3)))
                 k = self.generator.integers(2, km + 1)
-                in_indices = self.generator.choice(self.problem.n_dims, size=k, replace=False)
+                in_indices = self.generator.choice(self.problem.n_dims, size=min(k, self.problem.n_dims), replace=False)
                 pos_new = self.g_best.solution.copy()
                 for jdx in in_indices:
                     cos_term = (np.cos(epoch * np.pi / self.epoch) + 1) / 2
-                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[idx] - self.problem.lb[idx]) + self.problem.lb[idx]) * cos_term
+                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[jdx] - self.problem.lb[jdx]) + self.problem.lb[jdx]) * cos_term
                     # Boundary handling
                     if pos_new[jdx] > self.problem.ub[jdx] or pos_new[jdx] < self.problem.lb[jdx]:
                         if self.problem.n_dims > 15:
-- 
2.43.0


From e10b00259f206a47a70bd5aaf3479e078dd53e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 031/245] fix: JADE draws from the global random state instead
 of the seeded generator

---
 mealpy/evolutionary_based/DE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 33da76c..d57e1b6 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -261,7 +261,7 @@ class JADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr, 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f, 0.1)
+                f = cauchy.rvs(self.dyn_miu_f, 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
-- 
2.43.0


From 2ebd960b31cd5283c030b4f9e44fe8e44befefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 032/245] fix: JADE needs at least one top solution

---
 mealpy/evolutionary_based/DE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index d57e1b6..0783598 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -269,7 +269,7 @@ class JADE(Optimizer):
                 break
             temp_f.append(f)
             temp_cr.append(cr)
-            top = int(self.pop_size * self.pt)
+            top = max(1, int(self.pop_size * self.pt))
             x_best = pop_sorted[self.generator.integers(0, top)]
             r1_idx = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
             new_pop = self.pop + self.dyn_pop_archive
-- 
2.43.0


From 59568703e7a3d076c03e1fa48f750720bef78a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 033/245] fix: SAP_DE must keep enough agents for its mutation

---
 mealpy/evolutionary_based/DE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 0783598..a62db91 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -563,7 +563,7 @@ class SAP_DE(Optimizer):
         if m_new <= 4:
             m_new = self.fixed_pop_size + int(self.generator.uniform(0, 4))
         elif m_new > 4 * self.fixed_pop_size:
-            m_new = self.fixed_pop_size - int(self.generator.uniform(0, 4))
+            m_new = max(4, self.fixed_pop_size - int(self.generator.uniform(0, 4)))
         ## Change population by population size
         if m_new <= self.pop_size:
             self.pop = pop[:m_new]
-- 
2.43.0


From 4fd932ab3f8f7df95a25bc462c3109c4c92de0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 034/245] fix: SAP_DE starts the next solve with the last
 adapted population size

---
 mealpy/evolutionary_based/DE.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index a62db91..6b154f0 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -484,9 +484,11 @@ class SAP_DE(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.branch = self.validator.check_str("branch", branch, ["ABS", "REL"])
         self.set_parameters(["epoch", "pop_size", "branch"])
-        self.fixed_pop_size = self.pop_size
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.pop_size = self.fixed_pop_size = self.parameters["pop_size"]   # the population size is adapted in each run
+
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-- 
2.43.0


From 7e705fa66b13b22e771f266c6f50c577a3565f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 035/245] fix: DS_GWO fails with more groups than wolves

---
 mealpy/swarm_based/GWO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 52316fa..4ce191d 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -881,12 +881,13 @@ class DS_GWO(Optimizer):
         4. Set delta candidate farthest from alpha as beta
         """
         # Divide population into n_groups
-        group_size = self.pop_size // self.n_groups
+        n_groups = min(self.n_groups, self.pop_size)
+        group_size = self.pop_size // n_groups
         self.delta_candidates = []
 
-        for idx in range(self.n_groups):
+        for idx in range(n_groups):
             start_idx = idx * group_size
-            if idx == self.n_groups - 1:  # Last group takes remaining wolves
+            if idx == n_groups - 1:  # Last group takes remaining wolves
                 end_idx = self.pop_size
             else:
                 end_idx = (idx + 1) * group_size
-- 
2.43.0


From 5004bd2154052048f93d69d58fcb8b2ff88dd1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 036/245] fix: roulette wheel selection fails on non-finite
 fitness values

---
 mealpy/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index cefe04d..61a5869 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -704,7 +704,10 @@ class Optimizer:
         final_fitness = list_fitness
         if self.problem.minmax == "min":
             final_fitness = np.max(list_fitness) - list_fitness
-        prob = final_fitness / np.sum(final_fitness)
+        total = np.sum(final_fitness)
+        if not (np.isfinite(total) and total > 0):  # The fitness values give no usable probabilities
+            return int(self.generator.integers(0, len(list_fitness)))
+        prob = final_fitness / total
         return int(self.generator.choice(range(0, len(list_fitness)), p=prob))
 
     def get_index_kway_tournament_selection(self, pop: List = None, k_way: float = 0.2, output: int = 2, reverse: bool = False) -> List:
-- 
2.43.0


From 8635fc078802d958164ec92570cbbd117b70bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 037/245] fix: DMOA has no selection probabilities when the
 mean cost is zero

---
 mealpy/swarm_based/DMOA.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/DMOA.py b/mealpy/swarm_based/DMOA.py
index 67e9e65..57750d5 100644
--- a/mealpy/swarm_based/DMOA.py
+++ b/mealpy/swarm_based/DMOA.py
@@ -68,7 +68,6 @@ class OriginalDMOA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [10, 10000])
         self.n_baby_sitter = self.validator.check_int("n_baby_sitter", n_baby_sitter, [2, 10])
         self.peep = self.validator.check_float("peep", peep, [1, 10.])
-        self.n_scout = self.pop_size - self.n_baby_sitter
         self.is_parallelizable = False
         self.set_parameters(["epoch", "pop_size", "n_baby_sitter", "peep"])
         self.sort_flag = False
@@ -89,7 +88,7 @@ class OriginalDMOA(Optimizer):
         CF = (1. - epoch/self.epoch)**(2.*epoch/self.epoch)
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         mean_cost = np.mean(fit_list)
-        fi = np.exp(-fit_list / mean_cost)
+        fi = np.exp(-fit_list / mean_cost) if mean_cost != 0 else np.ones(len(self.pop))
         for idx in range(0, self.pop_size):
             alpha = self.get_index_roulette_wheel_selection(fi)
             k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx, alpha}))
@@ -199,7 +198,7 @@ class DevDMOA(Optimizer):
         CF = (1. - epoch / self.epoch) ** (2. * epoch / self.epoch)
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         mean_cost = np.mean(fit_list)
-        fi = np.exp(-fit_list / mean_cost)
+        fi = np.exp(-fit_list / mean_cost) if mean_cost != 0 else np.ones(len(self.pop))
 
         ## Foraging led by Alpha female
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 6985416629ab4fd149c6eb0edd205c166a6b9840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 038/245] fix: EFO draws from empty fields when a portion is
 small or large

---
 mealpy/physics_based/EFO.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mealpy/physics_based/EFO.py b/mealpy/physics_based/EFO.py
index 4c112bf..23834e7 100644
--- a/mealpy/physics_based/EFO.py
+++ b/mealpy/physics_based/EFO.py
@@ -78,6 +78,15 @@ class DevEFO(Optimizer):
         self.phi = (1 + np.sqrt(5)) / 2  # golden ratio
         self.sort_flag = True
 
+    def initialize_variables(self):
+        # Every field holds at least one electromagnet: [0, n_top), [n_top, n_bottom) neutral, [n_bottom, pop_size)
+        self.n_top = min(max(int(self.pop_size * self.p_field), 1), self.pop_size - 1)
+        self.n_bottom = min(max(int(self.pop_size * (1 - self.n_field)), 1), self.pop_size - 1)
+        self.mid_start = int((self.pop_size * self.p_field) + 1)
+        self.mid_end = max(self.mid_start + 1, self.n_bottom)
+        if self.mid_end > self.pop_size:
+            self.mid_start, self.mid_end = self.pop_size - 1, self.pop_size
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -87,9 +96,9 @@ class DevEFO(Optimizer):
         """
         pop_new = []
         for idx in range(0, self.pop_size):
-            r_idx1 = self.generator.integers(0, int(self.pop_size * self.p_field))  # top
-            r_idx2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size)  # bottom
-            r_idx3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)))  # middle
+            r_idx1 = self.generator.integers(0, self.n_top)  # top
+            r_idx2 = self.generator.integers(self.n_bottom, self.pop_size)  # bottom
+            r_idx3 = self.generator.integers(self.mid_start, self.mid_end)  # middle
             if self.generator.random() < self.ps_rate:
                 pos_new = self.pop[r_idx1].solution + self.phi * self.generator.random() * (self.g_best.solution - self.pop[r_idx3].solution) \
                           + self.generator.random() * (self.g_best.solution - self.pop[r_idx2].solution)
@@ -188,11 +197,11 @@ class OriginalEFO(DevEFO):
             self.pop = self.generate_population(self.pop_size)
         # %random vectors (this is to increase the calculation speed instead of determining the random values in each
         # iteration we allocate them in the beginning before algorithm start
-        self.r_index1 = self.generator.integers(0, int(self.pop_size * self.p_field), (self.problem.n_dims, self.epoch))
+        self.r_index1 = self.generator.integers(0, self.n_top, (self.problem.n_dims, self.epoch))
         # random particles from positive field
-        self.r_index2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size, (self.problem.n_dims, self.epoch))
+        self.r_index2 = self.generator.integers(self.n_bottom, self.pop_size, (self.problem.n_dims, self.epoch))
         # random particles from negative field
-        self.r_index3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)), (self.problem.n_dims, self.epoch))
+        self.r_index3 = self.generator.integers(self.mid_start, self.mid_end, (self.problem.n_dims, self.epoch))
         # random particles from neutral field
         self.ps = self.generator.uniform(0, 1, (self.problem.n_dims, self.epoch))
         # Probability of selecting electromagnets of generated particle from the positive field
-- 
2.43.0


From 8fc2f2c6c8a0e8e79c5d3ef49f45fe9160b1a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 039/245] fix: EFO randomises the first dimension only

---
 mealpy/physics_based/EFO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/EFO.py b/mealpy/physics_based/EFO.py
index 23834e7..588a67e 100644
--- a/mealpy/physics_based/EFO.py
+++ b/mealpy/physics_based/EFO.py
@@ -234,8 +234,8 @@ class OriginalEFO(DevEFO):
         # replacement of one electromagnet of generated particle with a random number (only for some generated particles) to bring diversity to the population
         if self.rp[iter01] < self.r_rate:
             x_new[self.RI] = self.problem.lb[self.RI] + (self.problem.ub[self.RI] - self.problem.lb[self.RI]) * self.randomization[iter01]
-            RI = self.RI + 1
-            if RI >= self.problem.n_dims:
+            self.RI = self.RI + 1
+            if self.RI >= self.problem.n_dims:
                 self.RI = 0
         # checking whether the generated number is inside boundary or not
         pos_new = self.correct_solution(x_new)
-- 
2.43.0


From 9dbfeff9acb3e1bcd2a536d6497f0f6c1cb7d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 040/245] fix: EHO fails when the population size is not a
 multiple of the number of clans, and keeps the clan size of its constructor

---
 mealpy/swarm_based/EHO.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mealpy/swarm_based/EHO.py b/mealpy/swarm_based/EHO.py
index 7e48a52..19ab089 100644
--- a/mealpy/swarm_based/EHO.py
+++ b/mealpy/swarm_based/EHO.py
@@ -70,13 +70,17 @@ class OriginalEHO(Optimizer):
         self.beta = self.validator.check_float("beta", beta, (0, 1.0))
         self.n_clans = self.validator.check_int("n_clans", n_clans, [2, int(self.pop_size/5)])
         self.set_parameters(["epoch", "pop_size", "alpha", "beta", "n_clans"])
-        self.n_individuals = int(self.pop_size / self.n_clans)
         self.sort_flag = False
 
+    def create_clans(self):
+        self.n_individuals = int(self.pop_size / self.n_clans)
+        self.pop_group = self.generate_group_population(self.pop, self.n_clans, self.n_individuals)
+        self.pop_group[-1] += [agent.copy() for agent in self.pop[self.n_clans * self.n_individuals:]]  # The last clan takes the rest
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        self.pop_group = self.generate_group_population(self.pop, self.n_clans, self.n_individuals)
+        self.create_clans()
 
     def evolve(self, epoch):
         """
@@ -88,8 +92,8 @@ class OriginalEHO(Optimizer):
         # Clan updating operator
         pop_new = []
         for idx in range(0, self.pop_size):
-            clan_idx = int(idx / self.n_individuals)
-            pos_clan_idx = int(idx % self.n_individuals)
+            clan_idx = min(int(idx / self.n_individuals), self.n_clans - 1)
+            pos_clan_idx = idx - clan_idx * self.n_individuals
             if pos_clan_idx == 0:  # The best in clan, because all clans are sorted based on fitness
                 center = np.mean(np.array([agent.solution for agent in self.pop_group[clan_idx]]), axis=0)
                 pos_new = self.beta * center
@@ -105,7 +109,7 @@ class OriginalEHO(Optimizer):
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
-        self.pop_group = self.generate_group_population(self.pop, self.n_clans, self.n_individuals)
+        self.create_clans()
         # Separating operator
         for idx in range(0, self.n_clans):
             self.pop_group[idx], _ = self.get_sorted_population(self.pop_group[idx], self.problem.minmax)
-- 
2.43.0


From b1c97f8b0ecb4df39200edc6ba6419423e22d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 041/245] fix: FLA transfers more molecules than a region holds

---
 mealpy/physics_based/FLA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/physics_based/FLA.py b/mealpy/physics_based/FLA.py
index a2910f5..f091f04 100644
--- a/mealpy/physics_based/FLA.py
+++ b/mealpy/physics_based/FLA.py
@@ -127,6 +127,7 @@ class OriginalFLA(Optimizer):
             if tdo < self.generator.random():
                 m1n, m2n = self.C3*self.n1, self.C4*self.n1
                 nt12 = int(np.round((m2n - m1n)*self.generator.random() + m1n))
+                nt12 = min(max(nt12, 0), self.n1)
                 for idx in range(0, nt12):
                     dfg = self.generator.integers(1, 3)
                     jj = -self.DD * (xm2 - xm1) / (np.linalg.norm(self.best2.solution - self.pop1[idx].solution) + self.EPSILON)
-- 
2.43.0


From 1b27f6192c966c804038e02083feb54e945f10ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 042/245] fix: FOA and HS use a negative scale when an upper
 bound is negative

---
 mealpy/music_based/HS.py  | 2 +-
 mealpy/swarm_based/FOA.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/music_based/HS.py b/mealpy/music_based/HS.py
index a14da0b..d02a1b9 100644
--- a/mealpy/music_based/HS.py
+++ b/mealpy/music_based/HS.py
@@ -82,7 +82,7 @@ class DevHS(Optimizer):
         for idx in range(0, self.pop_size):
             # Create New Harmony Position
             pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
-            delta = self.dyn_fw * self.generator.normal(self.problem.lb, self.problem.ub)
+            delta = self.dyn_fw * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             # Use Harmony Memory
             pos_new = np.where(self.generator.random(self.problem.n_dims) < self.c_r, self.g_best.solution, pos_new)
             # Pitch Adjustment
diff --git a/mealpy/swarm_based/FOA.py b/mealpy/swarm_based/FOA.py
index e7f40ca..53216d2 100644
--- a/mealpy/swarm_based/FOA.py
+++ b/mealpy/swarm_based/FOA.py
@@ -74,7 +74,7 @@ class OriginalFOA(Optimizer):
         """
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
@@ -139,7 +139,7 @@ class DevFOA(OriginalFOA):
         c = 1 - epoch / self.epoch
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = c * self.generator.random() * self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From 39443e1e127dc3789fee615ee65402714b640846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 043/245] fix: FOA evaluates positions outside the bounds and
 not the given ones

---
 mealpy/swarm_based/FOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FOA.py b/mealpy/swarm_based/FOA.py
index 53216d2..f64adca 100644
--- a/mealpy/swarm_based/FOA.py
+++ b/mealpy/swarm_based/FOA.py
@@ -62,7 +62,7 @@ class OriginalFOA(Optimizer):
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-        solution = self.norm_consecutive_adjacent__(solution)
+            solution = self.correct_solution(self.norm_consecutive_adjacent__(solution))
         return Agent(solution=solution)
 
     def evolve(self, epoch):
-- 
2.43.0


From 7975bb6fabf97702fc5e4815d24a7a7cf23eb496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 044/245] fix: TWO moves its teams in place and scores other
 positions than the ones it keeps

---
 mealpy/physics_based/TWO.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 759bb1a..e9d1cc1 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -95,7 +95,7 @@ class OriginalTWO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.pop_size):
@@ -193,7 +193,7 @@ class OppoTWO(OriginalTWO):
             epoch (int): The current iteration
         """
         ## Apply force of others solution on each individual solution
-        pop_new = self.pop.copy()
+        pop_new = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.pop_size):
@@ -205,14 +205,15 @@ class OppoTWO(OriginalTWO):
                     delta_x = 1 / 2 * acceleration + np.power(self.alpha, epoch) * self.beta * \
                               (self.problem.ub - self.problem.lb) * self.generator.normal(0, 1, self.problem.n_dims)
                     pos_new += delta_x
-            self.pop[idx].solution = pos_new
+            pop_new[idx].solution = pos_new
         ## Amend solution and update fitness value
         for idx in range(self.pop_size):
             pos_new = self.g_best.solution + self.generator.normal(0, 1, self.problem.n_dims) / (epoch) * (self.g_best.solution - pop_new[idx].solution)
             conditions = np.logical_or(pop_new[idx].solution < self.problem.lb, pop_new[idx].solution > self.problem.ub)
             conditions = np.logical_and(conditions, self.generator.random(self.problem.n_dims) < 0.5)
-            pos_new = np.where(conditions, pos_new, self.pop[idx].solution)
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = np.where(conditions, pos_new, pop_new[idx].solution)
+            pos_new = self.correct_solution(pos_new)
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
@@ -278,7 +279,7 @@ class LevyTWO(OriginalTWO):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy().astype(float)
             for kdx in range(self.pop_size):
@@ -292,7 +293,7 @@ class LevyTWO(OriginalTWO):
                     pos_new +=delta_x
             pop_new[idx].solution = pos_new
         for idx in range(self.pop_size):
-            pos_new = self.pop[idx].solution.copy().astype(float)
+            pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.problem.n_dims):
                 if pos_new[jdx] < self.problem.lb[jdx] or pos_new[jdx] > self.problem.ub[jdx]:
                     if self.generator.random() <= 0.5:
@@ -304,7 +305,8 @@ class LevyTWO(OriginalTWO):
                             pos_new[jdx] = self.problem.lb[jdx]
                         if pos_new[jdx] > self.problem.ub[jdx]:
                             pos_new[jdx] = self.problem.ub[jdx]
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = self.correct_solution(pos_new)
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
@@ -374,7 +376,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        pop_oppo = self.pop.copy()
+        pop_oppo = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_opposite = self.problem.ub + self.problem.lb - self.pop[idx].solution
             pos_new = self.correct_solution(pos_opposite)
@@ -392,7 +394,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy().astype(float)
             for kdx in range(self.pop_size):
@@ -406,7 +408,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                     pos_new += delta_x
             pop_new[idx].solution = pos_new
         for idx in range(self.pop_size):
-            pos_new = self.pop[idx].solution.copy().astype(float)
+            pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.problem.n_dims):
                 if pos_new[jdx] < self.problem.lb[jdx] or pos_new[jdx] > self.problem.ub[jdx]:
                     if self.generator.random() <= 0.5:
@@ -418,7 +420,8 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                             pos_new[jdx] = self.problem.lb[jdx]
                         if pos_new[jdx] > self.problem.ub[jdx]:
                             pos_new[jdx] = self.problem.ub[jdx]
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = self.correct_solution(pos_new)
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
-- 
2.43.0


From b852892fc0f437ad2dabaa96d2d774e49cf3e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 045/245] fix: OppoTWO drops half of the initial population and
 one more agent for an odd population size

---
 mealpy/physics_based/TWO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index e9d1cc1..a2a950e 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -182,7 +182,7 @@ class OppoTWO(OriginalTWO):
             if self.mode not in self.AVAILABLE_MODES:
                 pop_oppo[-1].target = self.get_target(pos_opposite)
         pop_oppo = self.update_target_for_population(pop_oppo)
-        self.pop = pop_temp + pop_oppo
+        self.pop = self.get_sorted_and_trimmed_population(self.pop + pop_oppo, self.pop_size, self.problem.minmax)
         self.pop = self.update_weight__(self.pop)
 
     def evolve(self, epoch):
-- 
2.43.0


From 043bf45cac64e4e8bf25c293c13346faf6270151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 046/245] fix: GSKA fails when the best, middle or worst group
 is empty

---
 mealpy/human_based/GSKA.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/mealpy/human_based/GSKA.py b/mealpy/human_based/GSKA.py
index 07bc4e3..1554e36 100644
--- a/mealpy/human_based/GSKA.py
+++ b/mealpy/human_based/GSKA.py
@@ -70,6 +70,13 @@ class DevGSKA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "pb", "kr"])
         self.sort_flag = True
 
+    def choose_between__(self, start, stop, idx):
+        """Choose an agent index in [start, stop) other than idx, or any other agent when there is none"""
+        candidates = set(range(start, min(stop, self.pop_size))) - {idx}
+        if len(candidates) == 0:
+            candidates = set(range(0, self.pop_size)) - {idx}
+        return self.generator.choice(list(candidates))
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -104,9 +111,9 @@ class DevGSKA(Optimizer):
                 if self.generator.uniform() <= self.kr:
                     id1 = int(self.pb * self.pop_size)
                     id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                    rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                    rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                    rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                    rand_best = self.choose_between__(0, id1, idx)
+                    rand_worst = self.choose_between__(id2, self.pop_size, idx)
+                    rand_mid = self.choose_between__(id1, id2, idx)
                     if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                         pos_new = self.pop[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                                   (self.pop[rand_best].solution - self.pop[rand_worst].solution + self.pop[rand_mid].solution - self.pop[idx].solution)
@@ -196,6 +203,13 @@ class OriginalGSKA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "pb", "kf", "kr", "kg"])
         self.sort_flag = True
 
+    def choose_between__(self, start, stop, idx):
+        """Choose an agent index in [start, stop) other than idx, or any other agent when there is none"""
+        candidates = set(range(start, min(stop, self.pop_size))) - {idx}
+        if len(candidates) == 0:
+            candidates = set(range(0, self.pop_size)) - {idx}
+        return self.generator.choice(list(candidates))
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -234,9 +248,9 @@ class OriginalGSKA(Optimizer):
                     if self.generator.uniform() <= self.kr:
                         id1 = int(self.pb * self.pop_size)
                         id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                        rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                        rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                        rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                        rand_best = self.choose_between__(0, id1, idx)
+                        rand_worst = self.choose_between__(id2, self.pop_size, idx)
+                        rand_mid = self.choose_between__(id1, id2, idx)
                         if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                             pos_new[j] = self.pop[idx].solution[j] + self.kf * \
                                          (self.pop[rand_best].solution[j] - self.pop[rand_worst].solution[j] +
-- 
2.43.0


From 7399fc4f6e15dd1c109603104f1196245874ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 047/245] fix: SMO fails when the last group is smaller than
 the others and at the fission of groups

---
 mealpy/swarm_based/SMO.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index 131cfc4..e92fb2e 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -123,7 +123,8 @@ class DevSMO(Optimizer):
         for group_idx, group in enumerate(self.groups):
             n_items = len(group)
             for idx in range(n_items):
-                list_rand = self.generator.choice(list(set(range(n_items)) - {idx}), size=self.problem.n_dims, replace=True)
+                others = list(set(range(n_items)) - {idx}) if n_items > 1 else [idx]
+                list_rand = self.generator.choice(others, size=self.problem.n_dims, replace=True)
                 vector = np.array([group[jdx].solution[kdx] for kdx, jdx in enumerate(list_rand)])
                 pos_new = group[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                           (self.local_leaders[group_idx].solution - group[idx].solution) + \
@@ -157,7 +158,8 @@ class DevSMO(Optimizer):
                         # Randomly select dimension to update
                         k = self.generator.integers(0, self.problem.n_dims)
                         # Select random monkey
-                        jdx = self.generator.choice(list(set(range(self.group_size)) - {idx}))
+                        others = list(set(range(len(group))) - {idx}) if len(group) > 1 else [idx]
+                        jdx = self.generator.choice(others)
                         pos_new = agent.solution.copy()
                         # Update using equation (4)
                         pos_new[k] = pos_new[k] + self.generator.uniform(0, 1) * (self.g_best.solution[k] - pos_new[k]) +\
@@ -204,7 +206,7 @@ class DevSMO(Optimizer):
             if self.generator.random() < 0.5:
                 # Fission - divide groups
                 self.pop = self.merge_groups(self.groups)
-                self.rng.shuffle(self.pop)
+                self.generator.shuffle(self.pop)
                 self.groups = self.split_fill_by_group(self.pop, self.num_groups)
             else:
                 # Fusion - combine all groups
-- 
2.43.0


From 67a47842ee1489e67cb76a5918e506d23f746f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 048/245] fix: SSpiderA has no new spiders in the parallel
 modes

---
 mealpy/swarm_based/SSpiderA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index c85e695..23370a4 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -134,10 +134,10 @@ class DevSSpiderA(Optimizer):
             pos_new = self.pop[idx].solution + self.generator.normal() * (self.pop[idx].solution - self.pop[idx].local_vector) + \
                       (pos_new - self.pop[idx].solution) * self.generator.normal()
             agent.solution = self.correct_solution(pos_new)
+            pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(agent.solution)
                 agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
-                pop_new.append(agent)
         pop_new = self.update_target_for_population(pop_new)
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 1f4cab18511f703c7091b51e6211ee25f1ce2c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 049/245] fix: ImprovedNMRA crossover fails in one dimension

---
 mealpy/swarm_based/NMRA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NMRA.py b/mealpy/swarm_based/NMRA.py
index 5f9a22d..ce70a55 100644
--- a/mealpy/swarm_based/NMRA.py
+++ b/mealpy/swarm_based/NMRA.py
@@ -147,7 +147,7 @@ class ImprovedNMRA(Optimizer):
         self.size_b = int(self.pop_size / 5)
 
     def crossover_random__(self, pop, g_best):
-        start_point = self.generator.integers(0, self.problem.n_dims / 2)
+        start_point = self.generator.integers(0, max(1, self.problem.n_dims / 2))
         id1 = start_point
         id2 = int(start_point + self.problem.n_dims / 3)
         id3 = int(self.problem.n_dims)
-- 
2.43.0


From 31de1ab5f5c2389feddd119337b65ea691e7c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 050/245] fix: SRSR uses a negative sigma when all upper bounds
 are negative

---
 mealpy/swarm_based/SRSR.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 49649bf..dd37d60 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -135,9 +135,10 @@ class OriginalSRSR(Optimizer):
         fit_id = np.argmax([agent.target_move for agent in self.pop])
         sigma_factor = 1 + self.generator.uniform() * np.max(self.problem.ub - self.problem.lb)
         self.SIF = sigma_factor * self.sigma_temp[fit_id]
+        sigma_max = np.max(np.abs(self.problem.ub))
         # Controlling Parameter Of Algorithm
-        if self.SIF > np.max(self.problem.ub):
-            self.SIF = np.max(self.problem.ub) * self.generator.uniform()
+        if self.SIF > sigma_max:
+            self.SIF = sigma_max * self.generator.uniform()
 
         # ========================================================================================= %%
         #            Phase 2 (Exploration): Moving Slave Robots Toward Master Robot                   %
-- 
2.43.0


From e4304432398fea5124ef341502bfa93e7abf43ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 051/245] tmp

fix: MA fails when the population size is odd
---
 mealpy/evolutionary_based/MA.py | 6 ++++--
 mealpy/swarm_based/SMO.py       | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mealpy/evolutionary_based/MA.py b/mealpy/evolutionary_based/MA.py
index 5915507..496d5b8 100644
--- a/mealpy/evolutionary_based/MA.py
+++ b/mealpy/evolutionary_based/MA.py
@@ -151,9 +151,10 @@ class OriginalMA(Optimizer):
         return best
 
     def create_child__(self, idx, pop_copy):
-        ancient = pop_copy[idx + 1] if idx % 2 == 0 else pop_copy[idx - 1]
         if idx == self.pop_size - 1:
             ancient = pop_copy[0]
+        else:
+            ancient = pop_copy[idx + 1] if idx % 2 == 0 else pop_copy[idx - 1]
         bitstring_new = self.crossover__(pop_copy[idx].bitstring, ancient.bitstring)
         bitstring_new = self.point_mutation__(bitstring_new)
         pos_new = self.decode__(bitstring_new)
@@ -176,9 +177,10 @@ class OriginalMA(Optimizer):
             children.append(self.pop[idx_offspring].copy())
         pop = []
         for idx in range(0, self.pop_size):
-            ancient = children[idx + 1] if idx % 2 == 0 else children[idx - 1]
             if idx == self.pop_size - 1:
                 ancient = children[0]
+            else:
+                ancient = children[idx + 1] if idx % 2 == 0 else children[idx - 1]
             bitstring_new = self.crossover__(children[idx].bitstring, ancient.bitstring)
             bitstring_new = self.point_mutation__(bitstring_new)
             pos_new = self.decode__(bitstring_new)
diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index e92fb2e..30fc9fd 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -206,7 +206,7 @@ class DevSMO(Optimizer):
             if self.generator.random() < 0.5:
                 # Fission - divide groups
                 self.pop = self.merge_groups(self.groups)
-                self.generator.shuffle(self.pop)
+                self.rng.shuffle(self.pop)
                 self.groups = self.split_fill_by_group(self.pop, self.num_groups)
             else:
                 # Fusion - combine all groups
-- 
2.43.0


From 0bbef19d938d10711740a8a6db49b247b5de4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 052/245] fix: updating the global best within an epoch
 rewrites the history of the previous epoch

---
 mealpy/optimizer.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 61a5869..b3b2cc7 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -172,7 +172,7 @@ class Optimizer:
         self.logger = Logger(self.problem.log_to, log_file=self.problem.log_file).create_logger(name=f"{self.__module__}.{self.__class__.__name__}")
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
-        self.pop, self.g_best, self.g_worst = None, None, None
+        self.pop, self.g_best, self.g_worst, self.mid_best = None, None, None, None
         self.nfe_counter = 0    # Count the evaluations of this run only
 
     def check_mode_and_workers(self, mode, n_workers):
@@ -627,7 +627,7 @@ class Optimizer:
 
         Args:
             pop (list): The population of pop_size individuals
-            save (bool): True if you want to add new current/global best to history, False if you just want to update current/global best
+            save (bool): True if you want to add new current/global best to history, False if you just want to update the global best within an epoch
 
         Returns:
             list: Sorted population and the global best solution
@@ -638,6 +638,9 @@ class Optimizer:
             ## Save current best
             self.history.list_current_best.append(c_best.copy())
             better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
+            if self.mid_best is not None:
+                better = self.get_better_agent(better, self.mid_best, self.problem.minmax)
+                self.mid_best = None
             self.history.list_global_best.append(better)
             ## Save current worst
             self.history.list_current_worst.append(c_worst.copy())
@@ -645,17 +648,10 @@ class Optimizer:
             self.history.list_global_worst.append(worse)
             return sorted_pop, better
         else:
-            ## Handle current best
-            local_better = self.get_better_agent(c_best, self.history.list_current_best[-1], self.problem.minmax)
-            self.history.list_current_best[-1] = local_better
-            global_better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
-            self.history.list_global_best[-1] = global_better
-            ## Handle current worst
-            local_worst = self.get_better_agent(c_worst, self.history.list_current_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_current_worst[-1] = local_worst
-            global_worst = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_global_worst[-1] = global_worst
-            return sorted_pop, global_better
+            ## The last entries in history belong to the previous epoch, so remember the best one until the end of this epoch
+            best = self.history.list_global_best[-1] if self.mid_best is None else self.mid_best
+            self.mid_best = self.get_better_agent(c_best, best, self.problem.minmax)
+            return sorted_pop, self.mid_best.copy()
 
     @staticmethod
     def sample_indexes_exclude_one(generator, pop_size: int, exclude_idx: int, n_samples: int, replace: bool=False):
-- 
2.43.0


From 726352ce06819f642c35b305b7b8a226f7ab5310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 053/245] fix: ICA revolution changes countries in place

---
 mealpy/human_based/ICA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 7a8940e..274f1ae 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -93,6 +93,7 @@ class OriginalICA(Optimizer):
         idx_list = self.generator.choice(range(0, self.problem.n_dims), n_revoluted, replace=False)
         if len(idx_list) == 0:
             idx_list = np.append(idx_list, self.generator.integers(0, self.problem.n_dims))
+        solution = solution.copy()
         solution[idx_list] = pos_new[idx_list]  # Change only those selected index
         return solution
 
-- 
2.43.0


From d2e2cc3bfaecd64cdddf2c92909766833d0e548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 054/245] fix: ICA loses track of its empires, and fails when
 one collapses or when costs add up to zero

---
 mealpy/human_based/ICA.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 274f1ae..a2cf809 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -97,6 +97,12 @@ class OriginalICA(Optimizer):
         solution[idx_list] = pos_new[idx_list]  # Change only those selected index
         return solution
 
+    @staticmethod
+    def get_power__(cost_list: np.ndarray) -> np.ndarray:
+        total = np.sum(cost_list)
+        power = np.abs(cost_list / total) if total != 0 else np.ones(len(cost_list))
+        return power / np.sum(power)
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
@@ -111,13 +117,13 @@ class OriginalICA(Optimizer):
 
         cost_empires_list = np.array([agent.target.fitness for agent in self.pop_empires])
         cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
-        prob_empires_list = np.abs(cost_empires_list_normalized / np.sum(cost_empires_list_normalized))
+        prob_empires_list = self.get_power__(cost_empires_list_normalized)
         # Randomly choose colonies to empires
         self.empires = {}
         idx_already_selected = []
         for i in range(0, self.empire_count - 1):
             self.empires[i] = []
-            n_colonies = int(round(prob_empires_list[i] * colony_count))
+            n_colonies = min(int(round(prob_empires_list[i] * colony_count)), colony_count - len(idx_already_selected))
             idx_list = self.generator.choice(list(set(range(0, colony_count)) - set(idx_already_selected)), n_colonies, replace=False).tolist()
             idx_already_selected += idx_list
             for idx in idx_list:
@@ -125,7 +131,7 @@ class OriginalICA(Optimizer):
         idx_last = list(set(range(0, colony_count)) - set(idx_already_selected))
         self.empires[self.empire_count - 1] = []
         for idx in idx_last:
-            self.empires[self.empire_count - 1].append(self.pop_colonies[idx].copy())
+            self.empires[self.empire_count - 1].append(self.pop_colonies[idx])
 
     def evolve(self, epoch):
         """
@@ -172,21 +178,25 @@ class OriginalICA(Optimizer):
         cost_empires_list = []
         for idx, colonies in self.empires.items():
             fit_list = np.array([agent.target.fitness for agent in colonies])
-            fit_empire = self.pop_empires[idx].target.fitness + self.zeta * np.mean(fit_list)
+            fit_empire = self.pop_empires[idx].target.fitness + (self.zeta * np.mean(fit_list) if len(fit_list) > 0 else 0.)
             cost_empires_list.append(fit_empire)
         cost_empires_list = np.array(cost_empires_list)
         # Find possession probability of each empire based on its total power
         cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
-        prob_empires_list = np.abs(cost_empires_list_normalized / np.sum(cost_empires_list_normalized))  # Vector P
+        prob_empires_list = self.get_power__(cost_empires_list_normalized)  # Vector P
         uniform_list = self.generator.uniform(0, 1, len(prob_empires_list))  # Vector R
         vector_D = prob_empires_list - uniform_list
         idx_empire = np.argmax(vector_D)
         # Find the weakest empire and weakest colony inside it
         idx_weakest_empire = np.argmax(cost_empires_list)
         if len(self.empires[idx_weakest_empire]) > 0:
-            colonies_sorted, _ = self.get_sorted_population(self.empires[idx_weakest_empire], self.problem.minmax)
-            self.empires[idx_empire].append(colonies_sorted.pop(-1))
-        else:
+            self.empires[idx_weakest_empire], _ = self.get_sorted_population(self.empires[idx_weakest_empire], self.problem.minmax)
+            self.empires[idx_empire].append(self.empires[idx_weakest_empire].pop(-1))
+        elif idx_empire != idx_weakest_empire:
+            # The empire without colonies collapses, its imperialist becomes a colony of the winner
             self.empires[idx_empire].append(self.pop_empires.pop(idx_weakest_empire))
+            self.empires.pop(idx_weakest_empire)
+            self.empires = dict(enumerate(self.empires.values()))
 
+        self.pop_colonies = [colony for colonies in self.empires.values() for colony in colonies]
         self.pop = self.pop_empires + self.pop_colonies
-- 
2.43.0


From d21f0084eb93954bdc85c0a558630f0eb8552eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 055/245] fix: INFO chooses its better agent beyond a
 population of five

---
 mealpy/math_based/INFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/math_based/INFO.py b/mealpy/math_based/INFO.py
index 30651c9..b1f3e08 100644
--- a/mealpy/math_based/INFO.py
+++ b/mealpy/math_based/INFO.py
@@ -71,7 +71,7 @@ class OriginalINFO(Optimizer):
             epoch (int): The current iteration
         """
         alpha = 2 * np.exp(-4 * (epoch / self.epoch))      # Eqs.(5.1) - Eq.(9.1)
-        idx_better = self.generator.integers(2, 6)
+        idx_better = self.generator.integers(2, min(6, self.pop_size))
         better = self.pop[idx_better]
         g_worst = self.pop[-1]
 
-- 
2.43.0


From 215897135acca7fabf6f48fb9397a8d88cb645a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 056/245] fix: LSHADEcnEpSin fails in one dimension and with
 fewer agents than its minimum population size

---
 mealpy/sota_based/LSHADEcnEpSin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 059faac..2790e0c 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -96,7 +96,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
     def initialize_variables(self):
         self.NP_init = self.pop_size if self.pop_size else 18 * self.problem.n_dims
-        self.NP_min = self.pop_size_min  # Minimum population size
+        self.NP_min = min(self.pop_size_min, self.NP_init)  # Minimum population size
         self.NP = self.NP_init      # population size will be updated in each iteration
 
         # Memory settings
@@ -206,7 +206,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
         # Compute covariance matrix
         if neighborhood.shape[0] > 1:
-            cov_matrix = np.cov(neighborhood.T)
+            cov_matrix = np.atleast_2d(np.cov(neighborhood.T))
             # Ensure positive definite
             cov_matrix += np.eye(self.problem.n_dims) * 1e-8
 
-- 
2.43.0


From c9d15aff331be9273f3589f46c637b4d606bcdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 057/245] fix: LSHADEcnEpSin draws from the global random state
 instead of the seeded generator

---
 mealpy/sota_based/LSHADEcnEpSin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 2790e0c..d59550e 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -185,7 +185,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
         """Standard binomial crossover"""
         if CR is None:
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
         trial = np.where(self.generator.uniform(0, 1, self.problem.n_dims) <= CR, mutant, target)
         j_rand = self.generator.integers(0, self.problem.n_dims)
@@ -222,7 +222,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
                 # Generate random CR for this crossover
                 r_idx = self.generator.integers(0, self.H)
-                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
                 CR = np.clip(CR, 0, 1)
 
                 # Binomial crossover in eigen space
@@ -291,20 +291,20 @@ class OriginalLSHADEcnEpSin(Optimizer):
                 else:
                     # Configuration 2: adaptive increasing
                     r_idx = self.generator.integers(0, self.H)
-                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1)
+                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1, random_state=self.generator)
                     freq = np.clip(freq, 0.1, 2.0)
                     F = self.sinusoidal_adaptation(epoch, self.epoch, config_type=2, freq=freq)
                     config_used = 2
             else:
                 # Second half: standard LSHADE
                 r_idx = self.generator.integers(0, self.H)
-                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1)
+                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1, random_state=self.generator)
                 F = np.clip(F, 0.1, 1.0)
                 config_used = 0
 
             # Generate CR
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
 
             # Mutation
-- 
2.43.0


From c4114f157db2ab3e8cb4ae9a61bc61454697fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 058/245] fix: SHADE draws from the global random state instead
 of the seeded generator

---
 mealpy/evolutionary_based/SHADE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index dd136b1..f0dd529 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -105,7 +105,7 @@ class OriginalSHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
@@ -271,7 +271,7 @@ class L_SHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
-- 
2.43.0


From e5ef4f7b654a4f106d6246ee544e46f434beef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 059/245] fix: SHADE fails with fewer than ten agents

---
 mealpy/evolutionary_based/SHADE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index f0dd529..874e889 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -113,8 +113,8 @@ class OriginalSHADE(Optimizer):
                 break
             list_cr_new[idx] = cr
             list_f_new[idx] = f
-            p = self.generator.uniform(2 / self.pop_size, 0.2)
-            top = int(self.pop_size * p)
+            p = self.generator.uniform(min(2 / self.pop_size, 0.2), 0.2)
+            top = max(1, int(self.pop_size * p))
             x_best = pop_sorted[self.generator.integers(0, top)]
             r1_idx = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
             new_pop = self.pop + self.dyn_pop_archive
-- 
2.43.0


From 6506c8d937830e92cd4793f58a738ce862bd7126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 060/245] fix: PSS fails with the MC sampling method

---
 mealpy/math_based/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index c6934d6..e5ea5d1 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -75,7 +75,7 @@ class OriginalPSS(Optimizer):
 
     def create_population(self, pop_size=None):
         if self.sampling_method == "MC":
-            pop = self.generator.random(self.pop_size, self.problem.n_dims)
+            pop = self.generator.random((self.pop_size, self.problem.n_dims))
         else:       # Default: "LHS"
             sampler = qmc.LatinHypercube(d=self.problem.n_dims)
             pop = sampler.random(n=pop_size)
-- 
2.43.0


From d871d2a79faaab42db2f34b5cb592748dfe27b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 061/245] fix: PSS samples from an unseeded generator

---
 mealpy/math_based/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index e5ea5d1..29cda9c 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -77,7 +77,7 @@ class OriginalPSS(Optimizer):
         if self.sampling_method == "MC":
             pop = self.generator.random((self.pop_size, self.problem.n_dims))
         else:       # Default: "LHS"
-            sampler = qmc.LatinHypercube(d=self.problem.n_dims)
+            sampler = qmc.LatinHypercube(d=self.problem.n_dims, seed=self.generator)
             pop = sampler.random(n=pop_size)
         return pop
 
-- 
2.43.0


From 3bf6083799dc44d4871b2e61d60482f598965b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 062/245] fix: PSS ignores the starting solutions

---
 mealpy/math_based/PSS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index 29cda9c..d6cbb40 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -82,6 +82,8 @@ class OriginalPSS(Optimizer):
         return pop
 
     def initialization(self):
+        if self.pop is not None:    # The starting solutions are given
+            return
         lb_pop = np.repeat(np.reshape(self.problem.lb, (1, -1)), self.pop_size, axis=0)
         ub_pop = np.repeat(np.reshape(self.problem.ub, (1, -1)), self.pop_size, axis=0)
         steps_mat = np.repeat(np.reshape(self.steps, (1, -1)), self.pop_size, axis=0)
-- 
2.43.0


From 91ce919dc27972d50f109f693bfb3900429ca131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 063/245] fix: HCO initialization can search forever for an
 agent better than a threshold

---
 mealpy/human_based/HCO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/HCO.py b/mealpy/human_based/HCO.py
index 9adb38e..891c8f7 100644
--- a/mealpy/human_based/HCO.py
+++ b/mealpy/human_based/HCO.py
@@ -90,6 +90,7 @@ class OriginalHCO(Optimizer):
         self.c2 = self.validator.check_float("c2", c2, [1., 100.])
         self.set_parameters(["epoch", "pop_size", "wfp", "wfv", "c1", "c2"])
         self.sort_flag = False
+        self.max_trials = 100
 
     def initialization(self):
         if self.pop is None:
@@ -110,7 +111,7 @@ class OriginalHCO(Optimizer):
         pfit = (worst.target.fitness - best.target.fitness) * self.wfp + best.target.fitness
         for idx in range(0, self.pop_size):
             if self.compare_fitness(pfit, self.pop[idx].target.fitness, self.problem.minmax):
-                while True:
+                for _ in range(0, self.max_trials):     # A better position may be arbitrarily hard to find
                     agent = self.generate_agent()
                     if self.compare_fitness(agent.target.fitness, pfit, self.problem.minmax):
                         self.pop[idx] = agent
-- 
2.43.0


From 60e5cebd477c3d1e85dab852ae6cd3c137fc9d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 064/245] fix: AAA fails in less than three dimensions

---
 mealpy/bio_based/AAA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index e8183dc..e0e3faa 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -156,7 +156,7 @@ class OriginalAAA(Optimizer):
             pos_new = self.pop[idx].solution.copy()
             while energy[idx] >= 0:
                 ndx = self.get_index_kway_tournament_selection(self.pop, k_way=0.2, output=1)[0]
-                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, False)
+                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, replace=self.problem.n_dims < 3)
                 pos_new[rd1] += (self.pop[ndx].solution[rd1] - pos_new[rd1]) * (self.s_force - alg_friction[idx]) * ((self.generator.random() - 0.5) * 2)
                 pos_new[rd2] += (self.pop[ndx].solution[rd2] - pos_new[rd2]) * (self.s_force - alg_friction[idx]) * np.cos(self.generator.random() * 2 * np.pi)
                 pos_new[rd3] += (self.pop[ndx].solution[rd3] - pos_new[rd3]) * (self.s_force - alg_friction[idx]) * np.sin(self.generator.random() * 2 * np.pi)
-- 
2.43.0


From 779af77a2d2188189f00345d7e8cb76d688e84c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 065/245] fix: AAA moves accepted agents in place without
 evaluating them

---
 mealpy/bio_based/AAA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index e0e3faa..527b33c 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -164,7 +164,7 @@ class OriginalAAA(Optimizer):
                 # Movement cost
                 energy[idx] = energy[idx] - self.e_loss / 2
                 pos_new = self.correct_solution(pos_new)
-                agent_new = self.generate_agent(pos_new)
+                agent_new = self.generate_agent(pos_new.copy())
                 if self.compare_target(agent_new.target, self.pop[idx].target, self.problem.minmax):
                     self.pop[idx] = agent_new
                     self.starvation[idx] = 0
-- 
2.43.0


From 4a9fd0152689ac5a4e5e9b9a046c38508f675c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 066/245] fix: NRO assigns a whole levy vector to one dimension

---
 mealpy/physics_based/NRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index dcf4dfd..874a95c 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -124,7 +124,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     #### Levy flight strategy is described as Eq. 18
                     if self.pop[i2].solution[j] == self.pop[idx].solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.pop[idx].solution[j] - self.g_best.solution[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.pop[idx].solution[j] - self.g_best.solution[j])
                     #### If not, based on Eq. 11, 12
                     else:
                         if self.generator.uniform() <= 0.5:
@@ -137,7 +137,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     ##### Based on Eq. 21
                     if X_worst.solution[j] == self.g_best.solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.problem.ub[j] - self.problem.lb[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.problem.ub[j] - self.problem.lb[j])
                     ##### Based on Eq. 13
                     else:
                         X_ion[j] = self.pop[idx].solution[j] + round(self.generator.uniform()) * self.generator.uniform() * \
-- 
2.43.0


From e91fdb2b156f4912a084eaf973c00f94c7d0c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 067/245] fix: OrcaOA starts the next solve with the last
 radius

---
 mealpy/swarm_based/ORCA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 8dece2d..d640f1a 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -59,9 +59,11 @@ class OriginalOrcaOA(Optimizer):
         self.p_percent = self.validator.check_float("p_percent", p_percent, [0, 1.0])
         self.R0 = self.validator.check_float("R0", R0, [-1000, 1000])
         self.set_parameters(["epoch", "pop_size", "p_percent", "R0"])
-        self.R = self.R0
         self.sort_flag = True
-        self.n_removes = int(self.p_percent * pop_size)
+
+    def initialize_variables(self):
+        self.R = self.R0
+        self.n_removes = int(self.p_percent * self.pop_size)
 
     def evolve(self, epoch: int):
         """
-- 
2.43.0


From 798f3284a956b226c0d5bb37739fd6aa7d4c4cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 068/245] fix: OrcaOA loses its best orca, and one agent in
 every epoch

---
 mealpy/swarm_based/ORCA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index d640f1a..25f4052 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -86,7 +86,7 @@ class OriginalOrcaOA(Optimizer):
         # Calculate d_i
         d_list = epsilon * self.R
 
-        pop_new = []
+        pop_new = [self.pop[0]]
         # Move the orcas toward the Seal and ice floe
         for idx in range(1, self.pop_size):  # Keep the best solution intact (elitism)
             if idx < self.pop_size - self.n_removes:
@@ -108,7 +108,7 @@ class OriginalOrcaOA(Optimizer):
                 pop_new[-1].target = self.get_target(pos_new)
         # Evaluate fitness in parallel
         if self.mode in self.AVAILABLE_MODES:
-            pop_new = self.update_target_for_population(pop_new)
+            pop_new = self.pop[:1] + self.update_target_for_population(pop_new[1:])
         self.pop = pop_new
 
         # Reduce the radius of the ice floe (simulated linear decay)
-- 
2.43.0


From f7fa6cca7e77eaef9c99bac587bc8c830951c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 069/245] fix: OrcaOA fails with a negative radius

---
 mealpy/swarm_based/ORCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 25f4052..36d1071 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -96,7 +96,7 @@ class OriginalOrcaOA(Optimizer):
                 if norm > 0:
                     direction /= norm
                 # Random position between R-d_i and R
-                r_dist = self.generator.uniform(self.R - d_list[idx], self.R)
+                r_dist = self.R - self.generator.uniform() * d_list[idx]
                 # Update position
                 pos_new = self.pop[0].solution + r_dist * direction
             else:
-- 
2.43.0


From de342d169cb4148d9de35e8b320ea4963c59020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 070/245] fix: SHO selects more hyenas than the population
 holds

---
 mealpy/swarm_based/SHO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/swarm_based/SHO.py b/mealpy/swarm_based/SHO.py
index af0b011..42bd420 100644
--- a/mealpy/swarm_based/SHO.py
+++ b/mealpy/swarm_based/SHO.py
@@ -97,6 +97,7 @@ class OriginalSHO(Optimizer):
                         N += 1
                         break
                     N += 1
+                N = min(N, self.pop_size)
                 circle_list = []
                 idx_list = self.generator.choice(range(0, self.pop_size), N, replace=False)
                 for j in range(0, N):
-- 
2.43.0


From 4c6ef6f09b9d17084fec86e16218eac943550325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 071/245] fix: SOO fails in the swarm modes

---
 mealpy/physics_based/SOO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/physics_based/SOO.py b/mealpy/physics_based/SOO.py
index f70ad77..9f5b935 100644
--- a/mealpy/physics_based/SOO.py
+++ b/mealpy/physics_based/SOO.py
@@ -122,6 +122,7 @@ class OriginalSOO(Optimizer):
         _, best3, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
 
         # Perform oscillatory movement update
+        pop_new = []
         for idx in range(self.pop_size):
             # Average of top star positions
             avg3 = np.mean([agent.solution for agent in best3], axis=0)
-- 
2.43.0


From 3ff23e7936c9ba71245042212efcefe7e13917e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 072/245] fix: SquirrelSA fails at the end of the winter
 season, with few squirrels and without acorn trees

---
 mealpy/swarm_based/SquirrelSA.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 08e8247..cfd82fb 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -88,7 +88,8 @@ class OriginalSquirrelSA(Optimizer):
         self.surface_area = 154e-4  # Surface area (m²)
         self.height_loss = 8  # Height loss during gliding (m)
         # Assign roles: 1 hickory, 3 acorn, rest normal trees
-        self.n_acorn_trees = self.n_food_sources - 1  # Number of acorn trees
+        self.n_sources = min(self.n_food_sources, self.pop_size - 2)  # Keep at least two normal trees
+        self.n_acorn_trees = self.n_sources - 1  # Number of acorn trees
 
     def calculate_gliding_distance(self):
         """Calculate gliding distance based on aerodynamics"""
@@ -134,13 +135,13 @@ class OriginalSquirrelSA(Optimizer):
             pop_new[idx] = agent
 
         # Case 2: Normal squirrels move toward acorn trees
-        indices_random = np.array(list(range(self.pop_size - self.n_food_sources)))
+        indices_random = np.array(list(range(self.pop_size - self.n_sources)))
         self.generator.shuffle(indices_random)
-        indices_random = indices_random + self.n_food_sources # True indices of normal squirrels
-        n_cut = self.generator.integers(1, self.pop_size - self.n_food_sources - 1)
+        indices_random = indices_random + self.n_sources # True indices of normal squirrels
+        n_cut = self.generator.integers(1, max(2, self.pop_size - self.n_sources - 1))
         for idx in indices_random[n_cut:]:
             # Select random acorn tree
-            jdx = self.generator.integers(0, self.n_acorn_trees) + 1
+            jdx = self.generator.integers(0, self.n_acorn_trees) + 1 if self.n_acorn_trees > 0 else 0
             d_g = self.calculate_gliding_distance()
             if self.generator.random() >= self.predator_prob:
                 # No predator: move toward acorn
@@ -170,13 +171,13 @@ class OriginalSquirrelSA(Optimizer):
             pop_new[idx] = agent
 
         # Seasonal monitoring condition
-        S_c = np.mean([ np.sqrt(np.sum((self.pop[idx].solution - self.pop[0].solution)**2)) for idx in range(1, self.n_food_sources) ])
+        S_c = np.mean([ np.sqrt(np.sum((self.pop[idx].solution - self.pop[0].solution)**2)) for idx in range(1, max(2, self.n_sources)) ])
         # Calculate minimum seasonal constant
         S_min = (10e-6 / 365) * (epoch / (self.epoch / 2.5))
 
         if S_c < S_min:
             # Winter season is over: randomly relocate some squirrels
-            n_relocate = max(1, len(self.pop_size - self.n_food_sources) // 4)
+            n_relocate = max(1, (self.pop_size - self.n_sources) // 4)
             relocate_indices = self.generator.choice(indices_random, n_relocate, replace=False)
             for idx in relocate_indices:
                 levy = self.get_levy_flight_step(beta = self.beta, multiplier = 0.01, size = self.problem.n_dims, case = -1)
-- 
2.43.0


From 65ecf0a4b9816ddeb19117c4796b91f6f28c5d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 073/245] fix: TS fails when all neighbours are tabu

---
 mealpy/math_based/TS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/math_based/TS.py b/mealpy/math_based/TS.py
index 64bea42..2a36523 100644
--- a/mealpy/math_based/TS.py
+++ b/mealpy/math_based/TS.py
@@ -105,6 +105,8 @@ class OriginalTS(Optimizer):
             list_candidates.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 list_candidates[-1].target = self.get_target(pos_new)
+        if len(list_candidates) == 0:       # Every neighbour is tabu or the current solution: continue from a random one
+            list_candidates.append(self.generate_agent())
         list_candidates = self.update_target_for_population(list_candidates)
         best_candidate, _ = self.get_best_agent(list_candidates, self.problem.minmax)
         self.x = best_candidate.solution
-- 
2.43.0


From b0e1d3a871c44e3ccead2d3a6fe8b9dcdf58c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 074/245] fix: TSeedA fails when a tree produces a single seed

---
 mealpy/bio_based/TSeedA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index aa2d642..dba109d 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -87,7 +87,7 @@ class OriginalTSeedA(Optimizer):
             n_seeds = self.generator.integers(min_seeds, max_seeds + 1)
             
             pop_new = []
-            rdx_list = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True)
+            rdx_list = np.atleast_1d(self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True))
             for jdx in range(n_seeds):
                 # Select a random tree 'r' different from 'i'
                 rdx = rdx_list[jdx]
-- 
2.43.0


From b53f973d33ad875e7358862031e888ca9d54a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 075/245] fix: TSeedA evaluates seeds outside the bounds

---
 mealpy/bio_based/TSeedA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index dba109d..4e3f3ab 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -112,7 +112,7 @@ class OriginalTSeedA(Optimizer):
                 # agent = self.generate_empty_agent(pos_new)
                 pop_new.append(self.generate_empty_agent(pos_new))
                 if self.mode not in self.AVAILABLE_MODES:
-                    pop_new[-1].target = self.get_target(seed)
+                    pop_new[-1].target = self.get_target(pos_new)
             # Update parallel
             if self.mode in self.AVAILABLE_MODES:
                 pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From e63083621aec6a307824ddf8529ea7dfb6f3ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 076/245] fix: WCA fails when a river has no streams or the
 costs add up to zero

---
 mealpy/system_based/WCA.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mealpy/system_based/WCA.py b/mealpy/system_based/WCA.py
index a8c809f..e10847b 100644
--- a/mealpy/system_based/WCA.py
+++ b/mealpy/system_based/WCA.py
@@ -96,14 +96,17 @@ class OriginalWCA(Optimizer):
 
         # Designate streams to rivers and sea
         cost_river_list = np.array([agent.target.fitness for agent in self.pop_best])
-        num_child_in_river_list = np.round(np.abs(cost_river_list / np.sum(cost_river_list)) * n_stream).astype(int)
+        total = np.sum(cost_river_list)
+        ratio_list = np.abs(cost_river_list / total) if total != 0 else np.ones(self.nsr)
+        num_child_in_river_list = np.round(ratio_list / np.sum(ratio_list) * n_stream).astype(int)
         if np.sum(num_child_in_river_list) < n_stream:
             num_child_in_river_list[-1] += n_stream - np.sum(num_child_in_river_list)
         streams = {}
         idx_already_selected = []
         for i in range(0, self.nsr - 1):
             streams[i] = []
-            idx_list = self.generator.choice(list(set(range(0, n_stream)) - set(idx_already_selected)), num_child_in_river_list[i], replace=False).tolist()
+            n_child = min(num_child_in_river_list[i], n_stream - len(idx_already_selected))
+            idx_list = self.generator.choice(list(set(range(0, n_stream)) - set(idx_already_selected)), n_child, replace=False).tolist()
             idx_already_selected += idx_list
             for idx in idx_list:
                 streams[i].append(self.pop_stream[idx])
@@ -133,9 +136,10 @@ class OriginalWCA(Optimizer):
                     stream_new[-1].target = self.get_target(pos_new)
             stream_new = self.update_target_for_population(stream_new)
             self.streams[idx] = stream_new
-            stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
-            if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
-                self.pop_best[idx] = stream_best.copy()
+            if len(stream_new) > 0:
+                stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
+                if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
+                    self.pop_best[idx] = stream_best.copy()
             # Update river
             pos_new = self.pop_best[idx].solution + self.generator.uniform() * self.wc * (self.g_best.solution - self.pop_best[idx].solution)
             pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From da353623580ebf72e4a672c10cb061629fe61283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 077/245] fix: QleSCA has no state when all agents are at the
 same position

---
 mealpy/math_based/SCA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/math_based/SCA.py b/mealpy/math_based/SCA.py
index e209657..9d82600 100644
--- a/mealpy/math_based/SCA.py
+++ b/mealpy/math_based/SCA.py
@@ -198,8 +198,8 @@ class QTable:
         self.epsilon = 0.1
 
     def get_state(self, density, distance):
-        density_range = next(i for i, r in enumerate(self.density_ranges) if density <= r[1])
-        distance_range = next(i for i, r in enumerate(self.distance_ranges) if distance <= r[1])
+        density_range = next(i for i, r in enumerate(self.density_ranges) if density <= r[1] or i == len(self.density_ranges) - 1)
+        distance_range = next(i for i, r in enumerate(self.distance_ranges) if distance <= r[1] or i == len(self.distance_ranges) - 1)
         return density_range * 3 + distance_range
 
     def get_action(self, state):
@@ -295,6 +295,8 @@ class QleSCA(DevSCA):
         # calculate the longest diagonal length L
         distances = np.sqrt(np.sum((agents[:, np.newaxis, :] - agents) ** 2, axis=-1))
         L = np.max(distances)
+        if L == 0:      # All agents are at the same position
+            return 0.
         # calculate the density
         return 1 / (len(pop) * L) * np.sum(np.sqrt(np.sum((agents - Y) ** 2, axis=1)))
 
-- 
2.43.0


From 6378670e08b14dab7686ab0cdc707f8f634d2167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 078/245] fix: WHO keeps positions that it did not evaluate

---
 mealpy/bio_based/WHO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/WHO.py b/mealpy/bio_based/WHO.py
index 8d5ffef..eaf3c54 100644
--- a/mealpy/bio_based/WHO.py
+++ b/mealpy/bio_based/WHO.py
@@ -169,7 +169,7 @@ class OriginalWHO(Optimizer):
             for jdx in range(0, self.n_exploit_step):
                 temp = g_best.solution + 0.1 * self.generator.uniform(self.problem.lb, self.problem.ub)
                 pos_new = self.correct_solution(temp)
-                agent = self.generate_empty_agent(temp)
+                agent = self.generate_empty_agent(pos_new)
                 pop_child.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-- 
2.43.0


From 26f1fe12ef93fced364e042e2f2d4b0ccea8d554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 079/245] fix: ArchOA evaluates positions outside the bounds

---
 mealpy/physics_based/ArchOA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ArchOA.py b/mealpy/physics_based/ArchOA.py
index e0efd68..b973604 100644
--- a/mealpy/physics_based/ArchOA.py
+++ b/mealpy/physics_based/ArchOA.py
@@ -139,7 +139,8 @@ class OriginalArchOA(Optimizer):
                 t = self.c3 * tf
                 pos_new = self.g_best.solution + f * self.c2 * self.generator.random() * self.pop[idx].acc * \
                           ddf * (t * self.g_best.solution - self.pop[idx].solution)
-            agent.solution = self.correct_solution(pos_new)
+            pos_new = self.correct_solution(pos_new)
+            agent.solution = pos_new
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(pos_new)
-- 
2.43.0


From bc38357f46c5b71da6668317f2fe62c8cbf05e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 080/245] fix: THRO training moves horses in place without
 evaluating them

---
 mealpy/game_based/THRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/game_based/THRO.py b/mealpy/game_based/THRO.py
index 8920b69..dbe5e2a 100644
--- a/mealpy/game_based/THRO.py
+++ b/mealpy/game_based/THRO.py
@@ -292,7 +292,7 @@ class OriginalTHRO(Optimizer):
 
         for idx in range(self.n_pop):
             # Training for Tianji's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     tr4, tr5 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
@@ -307,7 +307,7 @@ class OriginalTHRO(Optimizer):
                 self.pop_tianji[idx] = agent
 
             # Training for King's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_king[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     kr1, kr2 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
-- 
2.43.0


From 1b983fd798760b9a6b1c51cc64c5421ea89d108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 081/245] fix: SBO gives old bowers the fitness of new ones

---
 mealpy/bio_based/SBO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index a88bcb1..9ad2168 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -225,6 +225,7 @@ class OriginalSBO(DevSBO):
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                self.pop[idx].target = self.get_target(pos_new)
+                agent.target = self.get_target(pos_new)
+                self.pop[idx] = agent
         if self.mode in self.AVAILABLE_MODES:
             self.pop = self.update_target_for_population(pop_new)
-- 
2.43.0


From ce608a25a802f895f80dffbe23d3fe9bd0ea25e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 082/245] fix: SBO roulette wheel fails when rounding keeps the
 total probability below one

---
 mealpy/bio_based/SBO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index 9ad2168..1a3b4ff 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -185,8 +185,8 @@ class OriginalSBO(DevSBO):
         """
         r = self.generator.uniform()
         c = np.cumsum(fitness_list)
-        f = np.where(r < c)[0][0]
-        return int(f)
+        f = np.where(r < c)[0]
+        return int(f[0]) if len(f) > 0 else len(c) - 1
 
     def evolve(self, epoch):
         """
-- 
2.43.0


From 5da84cd9297393045bc5bb3066a16c46391457d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 083/245] fix: TSeedA: import numpy, which the repaired update
 uses

---
 mealpy/bio_based/TSeedA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index 4e3f3ab..beeada8 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -4,6 +4,7 @@
 # Github: https://github.com/tunayalc
 # ----------------------------------------------%
 
+import numpy as np
 from mealpy.optimizer import Optimizer
 from mealpy.utils.opt_info import OptInfo, ScientificConcern
 
-- 
2.43.0


From 862ac03363b69ed8f831c1a2003493ea329d6dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 084/245] fix: OriginalSA and GaussianSA evaluate positions
 outside the bounds

---
 mealpy/physics_based/SA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index c2618af..2442ddf 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -82,6 +82,7 @@ class OriginalSA(Optimizer):
         # Perturb the current solution
 
         pos_new = self.agent_current.solution + self.generator.standard_normal(self.problem.n_dims) * self.step_size
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
@@ -176,6 +177,7 @@ class GaussianSA(Optimizer):
         """
         # Perturb the current solution
         pos_new = self.agent_current.solution + self.generator.normal(scale=self.scale, size=self.problem.n_dims)
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
-- 
2.43.0


From 08f91e147269ac5e8a29971bf7d10ec7067bcece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 085/245] fix: OriginalBCO evaluates the uncorrected position
 while swimming

---
 mealpy/bio_based/BCO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index 781d6ce..27383ff 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -115,7 +115,8 @@ class OriginalBCO(Optimizer):
 
                 # Continue swimming without turbulence
                 pos_new = self.pop[idx].solution + step * step_direction
-                agent_new.solution = self.correct_solution(pos_new)
+                pos_new = self.correct_solution(pos_new)
+                agent_new.solution = pos_new
                 agent_new.target = self.get_target(pos_new)
                 m += 1
 
-- 
2.43.0


From 49f478d6cee081b925d317afdf1930fbce618a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 086/245] fix: IOBL_GWO opposite positions can leave the bounds
 by rounding

---
 mealpy/swarm_based/GWO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 4ce191d..cc9cea0 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1021,9 +1021,9 @@ class IOBL_GWO(Optimizer):
         # Apply Opposition-Based Learning (OBL) for leading wolves
         _, list_best, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
         pop_sorted, indices = self.get_sorted_population(self.pop, minmax=self.problem.minmax)
-        obl_alpha = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[0].solution)
-        obl_beta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[1].solution)
-        obl_delta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[2].solution)
+        obl_alpha = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[0].solution))
+        obl_beta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[1].solution))
+        obl_delta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[2].solution))
         obl_pop = [obl_alpha, obl_beta, obl_delta]
 
         # Replace worst 3 wolves with opposite solutions if they are better
-- 
2.43.0


From f69529b0b7331da9bc0868adbe75d2e901d90500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 087/245] fix: ModifiedSLO drops an initial position that is
 better than its opposite

---
 mealpy/swarm_based/SLO.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/SLO.py b/mealpy/swarm_based/SLO.py
index 2363dca..b9a6319 100644
--- a/mealpy/swarm_based/SLO.py
+++ b/mealpy/swarm_based/SLO.py
@@ -154,9 +154,8 @@ class ModifiedSLO(Optimizer):
         target = agent.target
         local_target = self.get_target(agent.local_solution)
         if self.compare_target(target, local_target, self.problem.minmax):
-            t1 = agent.local_solution.copy()
-            t2 = agent.solution.copy()
-            agent.update(solution=t1, target=local_target, local_solution=t2, local_target=target)
+            # The opposite position is worse, so the position itself is also its best known position
+            agent.update(local_solution=agent.solution.copy(), local_target=target.copy())
         else:
             t1 = agent.solution.copy()
             t2 = agent.local_solution.copy()
-- 
2.43.0


From dcd903087710f57659cb07346e86db2a54bbbc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 088/245] fix: OGWO opposite positions can leave the bounds by
 rounding

---
 mealpy/swarm_based/GWO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index cc9cea0..8f94d89 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1099,7 +1099,7 @@ class OGWO(Optimizer):
         # Generate opposition population using equation (12)
         pop_opposite = []
         for agent in self.pop:
-            pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+            pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
             agent_opposite = self.generate_empty_agent(pos_opposite)
             agent_opposite.target = self.get_target(pos_opposite)
             pop_opposite.append(agent_opposite)
@@ -1143,7 +1143,7 @@ class OGWO(Optimizer):
             # Generate opposition population using equation (12)
             pop_opposite = []
             for agent in self.pop:
-                pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+                pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
                 agent_opposite = self.generate_empty_agent(pos_opposite)
                 agent_opposite.target = self.get_target(pos_opposite)
                 pop_opposite.append(agent_opposite)
-- 
2.43.0


From 3254eba8669979080208b99d8624980f5b77ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 089/245] fix: OriginalNRO indexes the scalar Levy step of
 one-dimensional problems

---
 mealpy/physics_based/NRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index 874a95c..47b4ebe 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -71,7 +71,7 @@ class OriginalNRO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        levy_b = self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=self.problem.n_dims, case=-1)
+        levy_b = np.atleast_1d(self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=self.problem.n_dims, case=-1))
         # NFi phase
         Pb = self.generator.uniform()
         Pfi = self.generator.uniform()
-- 
2.43.0


From 895063a31d724c4eafda63e63fee0d83aa3d48b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 090/245] fix: DevTPO drops the starting solutions

---
 mealpy/bio_based/TPO.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TPO.py b/mealpy/bio_based/TPO.py
index fa0da9c..78bf946 100644
--- a/mealpy/bio_based/TPO.py
+++ b/mealpy/bio_based/TPO.py
@@ -92,10 +92,14 @@ class DevTPO(Optimizer):
         self.roots = self.generator.uniform(0, 1, (self.n_leafs, self.problem.n_dims))
 
     def initialization(self):
+        starts = self.pop
         self.pop_total = []
         self.pop = []                       # The best leaf in each branches
         for idx in range(self.pop_size):
-            leafs = self.generate_population(self.n_leafs)
+            if starts is None:
+                leafs = self.generate_population(self.n_leafs)
+            else:                           # Each starting solution is the first leaf of its branch
+                leafs = [starts[idx]] + self.generate_population(self.n_leafs - 1)
             best, _ = self.get_best_agent(leafs, self.problem.minmax)
             self.pop.append(best)
             self.pop_total.append(leafs)
-- 
2.43.0


From 6c07536a72b41b03428a61ee7019586221ad3658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 091/245] fix: CHIO fails when no susceptible or no immune case
 is left

---
 mealpy/human_based/CHIO.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mealpy/human_based/CHIO.py b/mealpy/human_based/CHIO.py
index 3c3a264..11d0fe9 100644
--- a/mealpy/human_based/CHIO.py
+++ b/mealpy/human_based/CHIO.py
@@ -95,10 +95,14 @@ class OriginalCHIO(Optimizer):
                     is_corona_list[i] = True
                 elif (1.0 / 3) * self.brr <= rand < (2.0 / 3) * self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 0)  # Susceptible list
+                    if idx_candidates[0].size == 0:
+                        continue
                     idx_selected = self.generator.choice(idx_candidates[0])
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
                     idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
@@ -214,6 +218,8 @@ class DevCHIO(OriginalCHIO):
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
                     idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
-- 
2.43.0


From 89e377b27d41e2eacca2fe2d059b018e52913269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 092/245] fix: OriginalCDDO picks a pattern that does not exist
 when pop_size < pattern_size

---
 mealpy/human_based/CDDO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CDDO.py b/mealpy/human_based/CDDO.py
index b56df44..5e2e20b 100644
--- a/mealpy/human_based/CDDO.py
+++ b/mealpy/human_based/CDDO.py
@@ -122,7 +122,7 @@ class OriginalCDDO(Optimizer):
                 self.SR = self.generator.integers(6, 11) / 10
             elif 1.5 < self.list_gr[idx] < 2:
                 # Consider the learnt patterns
-                pos_new = pattern[self.generator.integers(0, self.pattern_size)].solution - self.creativity_rate * self.pop_local[idx].solution
+                pos_new = pattern[self.generator.integers(0, len(pattern))].solution - self.creativity_rate * self.pop_local[idx].solution
                 self.LR = self.generator.integers(0, 6) / 10
                 self.SR = self.generator.integers(0, 6) / 10
             pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From 8dc3f5dacf9048fc9adc8ed66f4d7c9e2c88a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 093/245] fix: OriginalCDDO fails when the bounds of the first
 dimension contain no integer

---
 mealpy/human_based/CDDO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/CDDO.py b/mealpy/human_based/CDDO.py
index 5e2e20b..42bdf14 100644
--- a/mealpy/human_based/CDDO.py
+++ b/mealpy/human_based/CDDO.py
@@ -4,6 +4,7 @@
 #       Github: https://github.com/thieu1995        %                         
 # --------------------------------------------------%
 
+import numpy as np
 from mealpy.optimizer import Optimizer
 from mealpy.utils.opt_info import OptInfo, ScientificConcern
 
@@ -109,7 +110,7 @@ class OriginalCDDO(Optimizer):
         # Pattern matrix
         _, pattern, _ = self.get_special_agents(self.pop, n_best=self.pattern_size, minmax=self.problem.minmax)
         for idx in range(0, self.pop_size):
-            hand_pressure = self.generator.integers(self.problem.lb[0], self.problem.ub[0] + 1)
+            hand_pressure = self.generator.integers(np.floor(self.problem.lb[0]), np.floor(self.problem.ub[0]) + 1)
             pp = self.generator.integers(0, self.problem.n_dims)
             pos_new = self.pop[idx].solution.copy()
             if self.pop[idx].solution[pp] <= hand_pressure:
-- 
2.43.0


From 153ecbfe8f817b582af7d8e7ff3f1435bfe351b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 094/245] fix: PermutationVar.decode(encode(v)) gives the
 inverse permutation of v

---
 mealpy/utils/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 12fe047..1092c10 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -333,7 +333,8 @@ class PermutationVar(BaseVar):
         return self.le.inverse_transform(x)
 
     def correct(self, x):
-        return np.argsort(x)
+        # The rank of each coordinate, so that a position that is already a permutation stays the same
+        return np.argsort(np.argsort(x, kind="stable"), kind="stable")
 
     def generate(self):
         return self.generator.permutation(self.valid_set)
-- 
2.43.0


From f5c4ce12e255c25cd35337e18241f5fffcdbab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 095/245] fix: StringVar/CategoricalVar decode to 'unknown'
 when a value is listed twice

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 1092c10..d19cc42 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -236,7 +236,7 @@ class StringVar(BaseVar):
                 le = LabelEncoder().fit(valid_sets)
                 self.list_le = (le,)
                 self.lb = np.array([0., ])
-                self.ub = np.array([len(valid_sets) - self.eps, ])
+                self.ub = np.array([len(le.unique_labels) - self.eps, ])
             else:
                 self.n_vars = len(valid_sets)
                 if all(len(item) > 1 for item in valid_sets):
@@ -246,7 +246,7 @@ class StringVar(BaseVar):
                     for vl_set in valid_sets:
                         le = LabelEncoder().fit(vl_set)
                         self.list_le.append(le)
-                        ub.append(len(vl_set) - self.eps)
+                        ub.append(len(le.unique_labels) - self.eps)
                     self.lb = np.zeros(self.n_vars)
                     self.ub = np.array(ub)
                 else:
-- 
2.43.0


From dba50528037a0641e79d41a8377598f9d68fe6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 096/245] fix: CategoricalVar cannot encode or generate
 categories that are tuples

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index d19cc42..5423356 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -255,7 +255,7 @@ class StringVar(BaseVar):
             raise TypeError(f"Invalid valid_sets. It should be {self.SUPPORTED_ARRAY}.")
 
     def encode(self, x):
-        return np.array([le.transform(val)[0] for (le, val) in zip(self.list_le, x)], dtype=float)
+        return np.array([le.transform([val])[0] for (le, val) in zip(self.list_le, x)], dtype=float)
 
     def decode(self, x):
         x = self.correct(x)
@@ -274,7 +274,7 @@ class CategoricalVar(StringVar):
         super().__init__(valid_sets, name)
 
     def generate(self):
-        return [self.generator.choice(np.array(vl_set, dtype=object)) for vl_set in self.valid_sets]
+        return [vl_set[self.generator.integers(0, len(vl_set))] for vl_set in self.valid_sets]
 
 
 class SequenceVar(BaseVar):
-- 
2.43.0


From b56fc23b1348798d910ec782bac3aec3bf8bc895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 097/245] fix: transfer variables ignore their lower bound

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 5423356..a3345ce 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -373,7 +373,7 @@ class TransferBinaryVar(BinaryVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
         self.all_zeros = all_zeros
 
@@ -431,7 +431,7 @@ class TransferBoolVar(BoolVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
 
     def correct(self, x):
-- 
2.43.0


From b8ee6e9aafa899682e3193888b131feb91c21b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 098/245] fix: transfer variables decode an evaluated position
 to random other values

---
 mealpy/utils/space.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index a3345ce..5c76166 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -387,9 +387,9 @@ class TransferBinaryVar(BinaryVar):
 
     def correct(self, x):
         x = np.clip(x, self.lb, self.ub)
-        x = self.tf_func(x)
+        decided = (x == 0) | (x == 1)       # already corrected coordinates keep their value
         cons = self.generator.random(len(x))
-        x = np.where(cons < x, 1, 0)
+        x = np.where(decided, x == 1, cons < self.tf_func(x)).astype(int)
         return self._get_correct_x(x)
 
     def generate(self):
@@ -436,6 +436,6 @@ class TransferBoolVar(BoolVar):
 
     def correct(self, x):
         x = np.clip(x, self.lb, self.ub)
-        x = self.tf_func(x)
+        decided = (x == 0) | (x == 1)       # already corrected coordinates keep their value
         cons = self.generator.random(len(x))
-        return np.where(cons < x, 1, 0)
+        return np.where(decided, x == 1, cons < self.tf_func(x)).astype(int)
-- 
2.43.0


From d87685ce44e66d80bc70be41b1a82cb92e5a2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 099/245] fix: corrected positions of purely discrete problems
 are integer arrays that truncate later moves

---
 mealpy/utils/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/problem.py b/mealpy/utils/problem.py
index 081def8..4c3144c 100644
--- a/mealpy/utils/problem.py
+++ b/mealpy/utils/problem.py
@@ -130,7 +130,7 @@ class Problem:
         for idx, var in enumerate(bounds):
             x_new += list(var.correct(x[n_vars:n_vars+var.n_vars]))
             n_vars += var.n_vars
-        return np.array(x_new)
+        return np.array(x_new, dtype=float)
 
     @staticmethod
     def generate_solution_with_bounds(bounds: Union[List, Tuple, np.ndarray], encoded: bool = True) -> Union[List, np.ndarray]:
-- 
2.43.0


From 08f1fde894e8066eb9e63ab9559dd8e70ef99826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 100/245] fix: vstf_03 drops to 0 for huge inputs because the
 square overflows

---
 mealpy/utils/transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/transfer.py b/mealpy/utils/transfer.py
index 584aa15..bff358a 100644
--- a/mealpy/utils/transfer.py
+++ b/mealpy/utils/transfer.py
@@ -20,7 +20,7 @@ def vstf_02(x):
 
 
 def vstf_03(x):
-    return np.abs(x / np.sqrt(1. + np.square(x)))
+    return np.abs(x / np.hypot(1., x))
 
 
 def vstf_04(x):
-- 
2.43.0


From 9710ca126935ca6fd95379dc0687553b4ea95a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 101/245] fix: IntegerVar.generate exceeds the upper bound for
 some bounds because of rounding

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 5c76166..9e83a11 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -219,7 +219,7 @@ class IntegerVar(BaseVar):
         return np.clip(x, self.lb, self.ub)
 
     def generate(self):
-        return self.generator.integers(self.lb+0.5, self.ub+0.5+self.eps)
+        return self.generator.integers(np.round(self.lb+0.5), np.round(self.ub+0.5+self.eps))
 
 
 class StringVar(BaseVar):
-- 
2.43.0


From 3fbd387b0e426b58513b28e7b92cd2bc326a22f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 102/245] fix: OriginalDE refuses populations too small for
 strategy 3

---
 mealpy/evolutionary_based/DE.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 6b154f0..fd62bb2 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -77,6 +77,8 @@ class OriginalDE(Optimizer):
         self.wf = self.validator.check_float("wf", wf, (-3.0, 3.0))
         self.cr = self.validator.check_float("cr", cr, (0, 1.0))
         self.strategy = self.validator.check_int("strategy", strategy, [0, 5])
+        if self.strategy == 3:      # This strategy needs 5 different agents besides the current one
+            self.pop_size = self.validator.check_int("pop_size", pop_size, [6, 10000])
         self.set_parameters(["epoch", "pop_size", "wf", "cr", "strategy"])
         self.sort_flag = False
 
-- 
2.43.0


From df0b09860c4a98ed2f9277a87f2eb66f7cc694a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 103/245] fix: every starting solution has to have the right
 length, not only the first one

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index b3b2cc7..36cefb3 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -131,7 +131,7 @@ class Optimizer:
         if starting_solutions is None:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
-            if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
+            if all(type(solution) in self.SUPPORTED_ARRAYS and len(solution) == self.problem.n_dims for solution in starting_solutions):
                 # Work on copies: the caller's data must not be shared with (and changed by) the agents
                 starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
                 self.pop = self._generate_agents(starting_solutions)
-- 
2.43.0


From 5c5976c6b4815ca7bb7fab97cde2a284c5dea5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 104/245] fix: Termination ignores the criteria given in its
 'termination' dictionary

---
 mealpy/utils/termination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/termination.py b/mealpy/utils/termination.py
index 95ad04a..8033193 100644
--- a/mealpy/utils/termination.py
+++ b/mealpy/utils/termination.py
@@ -73,7 +73,7 @@ class Termination:
     def __set_keyword_arguments(self, kwargs):
         if type(kwargs) == dict:
             if type(kwargs.get("termination")) == dict:
-                for key, value in kwargs.items():
+                for key, value in kwargs["termination"].items():
                     setattr(self, key, value)
             for key, value in kwargs.items():
                 setattr(self, key, value)
-- 
2.43.0


From 1319996ef5c762ad1e190fa9911770128c77bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 105/245] fix: OriginalHGSO ignores pop_size and n_clusters set
 with set_parameters()

---
 mealpy/physics_based/HGSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/HGSO.py b/mealpy/physics_based/HGSO.py
index 69750fc..812fbbe 100644
--- a/mealpy/physics_based/HGSO.py
+++ b/mealpy/physics_based/HGSO.py
@@ -56,7 +56,6 @@ class OriginalHGSO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [10, 10000])
         self.n_clusters = self.validator.check_int("n_clusters", n_clusters, [2, int(self.pop_size/5)])
         self.set_parameters(["epoch", "pop_size", "n_clusters"])
-        self.n_elements = int(self.pop_size / self.n_clusters)
         self.sort_flag = False
         self.T0 = 298.15
         self.K = 1.0
@@ -68,6 +67,7 @@ class OriginalHGSO(Optimizer):
         self.l3 = 1E-2
 
     def initialize_variables(self):
+        self.n_elements = int(self.pop_size / self.n_clusters)
         self.H_j = self.l1 * self.generator.uniform()
         self.P_ij = self.l2 * self.generator.uniform()
         self.C_j = self.l3 * self.generator.uniform()
-- 
2.43.0


From b72544e6d158a34d947018764d79eb17f12ef4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 106/245] fix: SFO ignores pop_size and pp set with
 set_parameters()

---
 mealpy/swarm_based/SFO.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/swarm_based/SFO.py b/mealpy/swarm_based/SFO.py
index 2d9db03..4f80a8a 100644
--- a/mealpy/swarm_based/SFO.py
+++ b/mealpy/swarm_based/SFO.py
@@ -71,6 +71,8 @@ class OriginalSFO(Optimizer):
         self.epsilon = self.validator.check_float("epsilon", epsilon, (0, 0.1))
         self.set_parameters(["epoch", "pop_size", "pp", "AP", "epsilon"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.s_size = int(self.pop_size / self.pp)
 
     def initialization(self):
@@ -198,6 +200,8 @@ class ImprovedSFO(Optimizer):
         self.pp = self.validator.check_float("pp", pp, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "pp"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.s_size = int(self.pop_size / self.pp)
 
     def initialization(self):
-- 
2.43.0


From 5408b3fd589a3a0a78d26d286be031161f7016c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 107/245] fix: ModifiedEO ignores pop_size set with
 set_parameters()

---
 mealpy/physics_based/EO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/EO.py b/mealpy/physics_based/EO.py
index f9b3c33..a2313a9 100644
--- a/mealpy/physics_based/EO.py
+++ b/mealpy/physics_based/EO.py
@@ -154,6 +154,8 @@ class ModifiedEO(OriginalEO):
         """
         super().__init__(epoch, pop_size, **kwargs)
         self.sort_flag = False
+
+    def initialize_variables(self):
         self.pop_len = int(self.pop_size / 3)
 
     def evolve(self, epoch):
-- 
2.43.0


From be833a649a2197adc3ad29a089409d618ebe2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 108/245] fix: OriginalILA ignores its parameters set with
 set_parameters()

---
 mealpy/human_based/ILA.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mealpy/human_based/ILA.py b/mealpy/human_based/ILA.py
index cb7c745..15d8540 100644
--- a/mealpy/human_based/ILA.py
+++ b/mealpy/human_based/ILA.py
@@ -85,13 +85,6 @@ class OriginalILA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "n_models", "p_s1", "p_s2", "b_min", "b_max"])
         self.sort_flag = False
 
-        # Iteration tracking
-        self.n_g_max = max(1, self.pop_size // 2)
-        self.n_t1 = int(self.p_s1 * self.epoch)
-        self.n_t2 = int(self.p_s2 * self.epoch)
-        self.n_t3 = self.epoch - self.n_t1 - self.n_t2
-        # Calculate iterations per model for Stage 1
-        self.t_m = max(1, self.n_t1 // self.n_models) if self.n_models > 0 else 1
 
         # Initialize population
         self.experts = None
@@ -100,6 +93,15 @@ class OriginalILA(Optimizer):
         self.current_best = None
         self.current_n_g = None
 
+    def initialize_variables(self):
+        # Iteration tracking
+        self.n_g_max = max(1, self.pop_size // 2)
+        self.n_t1 = int(self.p_s1 * self.epoch)
+        self.n_t2 = int(self.p_s2 * self.epoch)
+        self.n_t3 = self.epoch - self.n_t1 - self.n_t2
+        # Calculate iterations per model for Stage 1
+        self.t_m = max(1, self.n_t1 // self.n_models) if self.n_models > 0 else 1
+
     def before_main_loop(self):
         self.experts = np.array([agent.solution for agent in self.pop])
         self.fitness = np.array([agent.target.fitness for agent in self.pop])
-- 
2.43.0


From 96fa5fdbd8bb10f085dc823b23f753a2f4de88d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 109/245] fix: LCO ignores pop_size set with set_parameters()

---
 mealpy/human_based/LCO.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/LCO.py b/mealpy/human_based/LCO.py
index 714526e..fd6c040 100644
--- a/mealpy/human_based/LCO.py
+++ b/mealpy/human_based/LCO.py
@@ -61,9 +61,11 @@ class OriginalLCO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.r1 = self.validator.check_float("r1", r1, [1.0, 3.0])
         self.set_parameters(["epoch", "pop_size", "r1"])
-        self.n_agents = int(np.ceil(np.sqrt(self.pop_size)))
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_agents = int(np.ceil(np.sqrt(self.pop_size)))
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -229,9 +231,11 @@ class ImprovedLCO(Optimizer):
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.set_parameters(["epoch", "pop_size"])
-        self.pop_len = int(self.pop_size / 2)
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.pop_len = int(self.pop_size / 2)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From d11429f0d345883d99d6b1427e17f35e6000ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 110/245] fix: VCS ignores pop_size and lamda set with
 set_parameters()

---
 mealpy/bio_based/VCS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/VCS.py b/mealpy/bio_based/VCS.py
index 99be716..afd5fc4 100644
--- a/mealpy/bio_based/VCS.py
+++ b/mealpy/bio_based/VCS.py
@@ -69,10 +69,12 @@ class DevVCS(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.lamda = self.validator.check_float("lamda", lamda, (0, 1.0))
         self.sigma = self.validator.check_float("sigma", sigma, (0, 5.0))
-        self.n_best = int(self.lamda * self.pop_size)
         self.set_parameters(["epoch", "pop_size", "lamda", "sigma"])
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_best = int(self.lamda * self.pop_size)
+
     def calculate_xmean__(self, pop):
         """
         Calculate the mean position of list of solutions (population)
-- 
2.43.0


From 08c07b8e36f235a48318e031c45cf9b406e98488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 111/245] fix: OriginalCOA ignores pop_size and n_coyotes set
 with set_parameters()

---
 mealpy/swarm_based/COA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index 0072931..cc9997d 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -67,9 +67,11 @@ class OriginalCOA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.n_coyotes = self.validator.check_int("n_coyotes", n_coyotes, [2, int(self.pop_size / 2)])
         self.set_parameters(["epoch", "pop_size", "n_coyotes"])
-        self.n_packs = int(pop_size / self.n_coyotes)
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.n_packs = int(self.pop_size / self.n_coyotes)
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-- 
2.43.0


From 58f2f13fa721ab84b32e8ce0617a2da1590911f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 112/245] fix: OriginalCSA ignores pop_size and p_a set with
 set_parameters()

---
 mealpy/swarm_based/CSA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CSA.py b/mealpy/swarm_based/CSA.py
index cde8fed..79594f6 100644
--- a/mealpy/swarm_based/CSA.py
+++ b/mealpy/swarm_based/CSA.py
@@ -62,9 +62,11 @@ class OriginalCSA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.p_a = self.validator.check_float("p_a", p_a, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "p_a"])
-        self.n_cut = int(self.p_a * self.pop_size)
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.n_cut = int(self.p_a * self.pop_size)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From 2aa8b0355c2cc7a5c4c824c091bc3e35d5b948ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 113/245] fix: ImprovedTLO ignores pop_size and n_teachers set
 with set_parameters()

---
 mealpy/human_based/TLO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/TLO.py b/mealpy/human_based/TLO.py
index b4215df..a0ecc82 100644
--- a/mealpy/human_based/TLO.py
+++ b/mealpy/human_based/TLO.py
@@ -255,9 +255,11 @@ class ImprovedTLO(OriginalTLO):
         super().__init__(epoch, pop_size, **kwargs)
         self.n_teachers = self.validator.check_int("n_teachers", n_teachers, [2, int(np.sqrt(self.pop_size)-1)])
         self.set_parameters(["epoch", "pop_size", "n_teachers"])
+        self.sort_flag = False
+
+    def initialize_variables(self):
         self.n_students = self.pop_size - self.n_teachers
         self.n_students_in_team = int(self.n_students / self.n_teachers)
-        self.sort_flag = False
 
     def initialization(self):
         if self.pop is None:
-- 
2.43.0


From 44093a4a1e1dd9b1d2ee351ab52a6aa58acd7e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 114/245] fix: SSA ignores pop_size, PD and SD set with
 set_parameters()

---
 mealpy/swarm_based/SSA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSA.py b/mealpy/swarm_based/SSA.py
index cf06322..5b570a8 100644
--- a/mealpy/swarm_based/SSA.py
+++ b/mealpy/swarm_based/SSA.py
@@ -69,9 +69,11 @@ class DevSSA(Optimizer):
         self.PD = self.validator.check_float("PD", PD, (0, 1.0))
         self.SD = self.validator.check_float("SD", SD, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "ST", "PD", "SD"])
+        self.sort_flag = True
+
+    def initialize_variables(self):
         self.n1 = int(self.PD * self.pop_size)
         self.n2 = int(self.SD * self.pop_size)
-        self.sort_flag = True
 
     def amend_solution(self, solution: np.ndarray) -> np.ndarray:
         condition = np.logical_and(self.problem.lb <= solution, solution <= self.problem.ub)
-- 
2.43.0


From 6adfbebee6a618b689f1582dd9cd8443c3db5eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 115/245] fix: ES ignores pop_size and lamda set with
 set_parameters()

---
 mealpy/evolutionary_based/ES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/ES.py b/mealpy/evolutionary_based/ES.py
index 59394e2..169c5f8 100644
--- a/mealpy/evolutionary_based/ES.py
+++ b/mealpy/evolutionary_based/ES.py
@@ -67,10 +67,10 @@ class OriginalES(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.lamda = self.validator.check_float("lamda", lamda, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "lamda"])
-        self.n_child = int(self.lamda * self.pop_size)
         self.sort_flag = True
     
     def initialize_variables(self):
+        self.n_child = int(self.lamda * self.pop_size)
         self.distance = 0.05 * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
-- 
2.43.0


From 92495fb9862ceb9b516d5c27566866a51793a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 116/245] fix: MLFA_GD ignores pop_size set with
 set_parameters()

---
 mealpy/swarm_based/FFA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FFA.py b/mealpy/swarm_based/FFA.py
index 365b32f..4557ca4 100644
--- a/mealpy/swarm_based/FFA.py
+++ b/mealpy/swarm_based/FFA.py
@@ -201,9 +201,11 @@ class MLFA_GD(Optimizer):
         self.k_rw = self.validator.check_int("k_rw", k_rw, [1, 1000])
         self.set_parameters(["epoch", "pop_size", "m_females", "beta0", "gama", "alpha", "k_rw"])
         self.sort_flag = False
-        self.n_sub = pop_size // 2
         self.males = self.females = self.males_pbest = None
 
+    def initialize_variables(self):
+        self.n_sub = self.pop_size // 2
+
     def chaotic_map(self, k):
         """
         Generates k chaotic variants using the Logistic map.
-- 
2.43.0


From 4e729cd988c50f4f08a75c28feb03dd0f27db10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 117/245] fix: OriginalMSA ignores pop_size and partition set
 with set_parameters()

---
 mealpy/swarm_based/MSA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/MSA.py b/mealpy/swarm_based/MSA.py
index 86075dc..81c5366 100644
--- a/mealpy/swarm_based/MSA.py
+++ b/mealpy/swarm_based/MSA.py
@@ -75,12 +75,14 @@ class OriginalMSA(Optimizer):
         self.max_step_size = self.validator.check_float("max_step_size", max_step_size, [0, self.epoch])
         self.set_parameters(["epoch", "pop_size", "n_best", "partition", "max_step_size"])
         self.sort_flag = True
+        # you can change this ratio so as to get much better performance
+        self.golden_ratio = (np.sqrt(5) - 1) / 2.0
+
+    def initialize_variables(self):
         # np1 in paper
         self.n_moth1 = int(np.ceil(self.partition * self.pop_size))
         # np2 in paper, we actually don't need this variable
         self.n_moth2 = self.pop_size - self.n_moth1
-        # you can change this ratio so as to get much better performance
-        self.golden_ratio = (np.sqrt(5) - 1) / 2.0
 
     def evolve(self, epoch):
         """
-- 
2.43.0


From d3ae255be3da826b3c9acf30e0ecca2fc9738d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 118/245] fix: BBO ignores pop_size set with set_parameters()

---
 mealpy/bio_based/BBO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/bio_based/BBO.py b/mealpy/bio_based/BBO.py
index 9d59bc2..25fe9ad 100644
--- a/mealpy/bio_based/BBO.py
+++ b/mealpy/bio_based/BBO.py
@@ -59,6 +59,8 @@ class OriginalBBO(Optimizer):
         self.n_elites = self.validator.check_int("n_elites", n_elites, [2, int(self.pop_size / 2)])
         self.set_parameters(["epoch", "pop_size", "p_m", "n_elites"])
         self.sort_flag = False
+
+    def initialize_variables(self):
         self.mu = (self.pop_size + 1 - np.array(range(1, self.pop_size + 1))) / (self.pop_size + 1)
         self.mr = 1 - self.mu
 
-- 
2.43.0


From 8911a854807e1d028583340971fd5064cfef49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 119/245] fix: NMRA ignores pop_size set with set_parameters()

---
 mealpy/swarm_based/NMRA.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/swarm_based/NMRA.py b/mealpy/swarm_based/NMRA.py
index ce70a55..b796164 100644
--- a/mealpy/swarm_based/NMRA.py
+++ b/mealpy/swarm_based/NMRA.py
@@ -56,6 +56,8 @@ class OriginalNMRA(Optimizer):
         self.pb = self.validator.check_float("pb", pb, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "pb"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.size_b = int(self.pop_size / 5)
 
     def evolve(self, epoch):
@@ -144,6 +146,8 @@ class ImprovedNMRA(Optimizer):
         self.pm = self.validator.check_float("pm", pm, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "pb", "pm"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.size_b = int(self.pop_size / 5)
 
     def crossover_random__(self, pop, g_best):
-- 
2.43.0


From c01f0a33e7e9e8c4952e04d366c4c5591d33c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 120/245] fix: EliteSingleGA and EliteMultiGA ignores pop_size,
 elite_best and elite_worst set with set_parameters()

---
 mealpy/evolutionary_based/GA.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 07965b3..4f9c7ba 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -531,20 +531,22 @@ class EliteSingleGA(SingleGA):
                  elite_best=0.1, elite_worst=0.3, strategy=0, **kwargs):
         super().__init__(epoch, pop_size, pc, pm, selection, crossover, mutation, k_way, **kwargs)
         self.elite_best = self.validator.check_is_int_and_float("elite_best", elite_best, [1, int(self.pop_size / 2)-1], (0, 0.5))
-        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
-        if self.n_elite_best < 1:
-            self.n_elite_best = 1
 
         self.elite_worst = self.validator.check_is_int_and_float("elite_worst", elite_worst, [1, int(self.pop_size / 2)-1], (0, 0.5))
-        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
-        if self.n_elite_worst < 1:
-            self.n_elite_worst = 1
 
         self.strategy = self.validator.check_int("strategy", strategy, [0, 1])
         self.set_parameters(["epoch", "pop_size", "pc", "pm", "selection", "crossover", "mutation", "k_way",
                              "elite_best", "elite_worst", "strategy"])
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
+        if self.n_elite_best < 1:
+            self.n_elite_best = 1
+        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
+        if self.n_elite_worst < 1:
+            self.n_elite_worst = 1
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -761,20 +763,22 @@ class EliteMultiGA(MultiGA):
                  elite_best=0.1, elite_worst=0.3, strategy=0, **kwargs):
         super().__init__(epoch, pop_size, pc, pm, selection, crossover, mutation, k_way, **kwargs)
         self.elite_best = self.validator.check_is_int_and_float("elite_best", elite_best, [1, int(self.pop_size / 2) - 1], (0, 0.5))
-        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
-        if self.n_elite_best < 1:
-            self.n_elite_best = 1
 
         self.elite_worst = self.validator.check_is_int_and_float("elite_worst", elite_worst, [1, int(self.pop_size / 2) - 1], (0, 0.5))
-        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
-        if self.n_elite_worst < 1:
-            self.n_elite_worst = 1
 
         self.strategy = self.validator.check_int("strategy", strategy, [0, 1])
         self.set_parameters(["epoch", "pop_size", "pc", "pm", "selection", "crossover", "mutation", "k_way",
                              "elite_best", "elite_worst", "strategy"])
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
+        if self.n_elite_best < 1:
+            self.n_elite_best = 1
+        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
+        if self.n_elite_worst < 1:
+            self.n_elite_worst = 1
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From 2f6c6eea26dbc04d223a49ea585a1d03d92db137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 121/245] fix: OriginalBFO truncates the step size Ci to an
 integer (0 by default)

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index d77cadd..37c8078 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -95,7 +95,7 @@ class OriginalBFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.step_size = self.Ci = self.validator.check_int("Ci", Ci, (0, 5.0))
+        self.step_size = self.Ci = self.validator.check_float("Ci", Ci, (0, 5.0))
         self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
         self.chem_steps = self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
         self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
-- 
2.43.0


From a81fa8207ac14c1992b5d84d8633c2e0035d2847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 122/245] fix: BFO ignores pop_size, Ci, Ped, Nc and Ns set
 with set_parameters()

---
 mealpy/swarm_based/BFO.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 37c8078..be7639f 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -104,10 +104,13 @@ class OriginalBFO(Optimizer):
         self.h_repels = self.validator.check_float("h_repels", h_repels, (0, 1.0))
         self.w_repels = self.validator.check_float("w_repels", w_repels, (2.0, 20.0))
         self.set_parameters(["epoch", "pop_size", "Ci", "Ped", "Nc", "Ns", "d_attract", "w_attract", "h_repels", "w_repels"])
-        self.half_pop_size = int(self.pop_size / 2)
         self.is_parallelizable = False
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.step_size, self.p_eliminate, self.chem_steps, self.swim_length = self.Ci, self.Ped, self.Nc, self.Ns
+        self.half_pop_size = int(self.pop_size / 2)
+
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
@@ -250,6 +253,7 @@ class ABFO(Optimizer):
         self.sort_flag = False
 
     def initialize_variables(self):
+        self.p_eliminate, self.swim_length = self.Ped, self.Ns
         self.step_start = self.C_s * (self.problem.ub - self.problem.lb)
         self.step_end = self.C_e * (self.problem.ub - self.problem.lb)
 
-- 
2.43.0


From 9a9247f7eea24c4dbcc29f60eeddfcca9ad399e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 123/245] fix: OriginalSSpiderO swaps fp_min and fp_max in its
 parameters, but not when they are set with set_parameters()

---
 mealpy/swarm_based/SSpiderO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/SSpiderO.py b/mealpy/swarm_based/SSpiderO.py
index 6606cd2..8b722fa 100644
--- a/mealpy/swarm_based/SSpiderO.py
+++ b/mealpy/swarm_based/SSpiderO.py
@@ -64,13 +64,13 @@ class OriginalSSpiderO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        fp_min = self.validator.check_float("fp_min", fp_min, (0., 1.0))
-        fp_max = self.validator.check_float("fp_max", fp_max, (0., 1.0))
-        self.fp_min, self.fp_max = min((fp_min, fp_max)), max((fp_min, fp_max))
+        self.fp_min = self.validator.check_float("fp_min", fp_min, (0., 1.0))
+        self.fp_max = self.validator.check_float("fp_max", fp_max, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "fp_min", "fp_max"])
 
     def initialization(self):
-        fp_temp = self.fp_min + (self.fp_max - self.fp_min) * self.generator.uniform()  # Female Aleatory Percent
+        fp_min, fp_max = min(self.fp_min, self.fp_max), max(self.fp_min, self.fp_max)
+        fp_temp = fp_min + (fp_max - fp_min) * self.generator.uniform()  # Female Aleatory Percent
         self.n_f = int(self.pop_size * fp_temp)  # number of female
         self.n_m = self.pop_size - self.n_f  # number of male
         # Probabilities of attraction or repulsion Proper tuning for better results
-- 
2.43.0


From 30348a6aa5b687f98b330cc09d1692223ebf2348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 124/245] fix: OriginalPO reports pop_size squared as its
 parameter, ignores it in set_parameters() and truncates lamda_max

---
 mealpy/human_based/PO.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index d7c25bf..6bddd6e 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -67,14 +67,19 @@ class OriginalPO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_n = self.validator.check_int("pop_size", pop_size, [2, 100])
-        self.pop_size = self.pop_n ** 2
-        self.lamda_max = self.validator.check_int("lamda_max", lamda_max, [1.0, 100])
+        self.pop_size = self.pop_n
+        self.lamda_max = self.validator.check_float("lamda_max", lamda_max, [1.0, 100])
         self.set_parameters(["epoch", "pop_size", "lamda_max"])
+        self.pop_size = self.pop_n ** 2
         self.sort_flag = False
         self.lam = None
         self.pop_prev = None
         self.leaders_idx, self.winners_idx = None, None
 
+    def initialize_variables(self):
+        self.pop_n = self.parameters["pop_size"]
+        self.pop_size = self.pop_n ** 2
+
     def before_main_loop(self):
         self.lam = self.lamda_max
         self.pop_prev = self.pop.copy()
-- 
2.43.0


From 776904c2573e09b78dc44d2e640a927a2b93e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 125/245] fix: IntegerVar.decode returned ub + 1 when the bound
 is so large that its eps is rounded away

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 9e83a11..1da87bb 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -212,7 +212,7 @@ class IntegerVar(BaseVar):
 
     def decode(self, x):
         x = self.correct(x)
-        x = self.round(x)
+        x = np.minimum(self.round(x), np.round(self.ub - 0.5 + self.eps))   # eps vanishes next to a huge bound
         return np.array(x, dtype=int)
 
     def correct(self, x):
-- 
2.43.0


From 70883beb8ebeeee4c7dcb82f8d6210a088b2e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 126/245] fix: PermutationVar.generate turned the values of a
 mixed-type set into strings, which can't be encoded

---
 mealpy/utils/space.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 1da87bb..c476071 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -317,7 +317,12 @@ class PermutationVar(BaseVar):
 
     def _set_bounds(self, valid_set):
         if type(valid_set) in self.SUPPORTED_ARRAY and len(valid_set) > 1:
-            self.valid_set = np.array(valid_set)
+            if len({type(item) for item in valid_set}) == 1 and np.ndim(valid_set[0]) == 0:
+                self.valid_set = np.array(valid_set)
+            else:   # Don't let numpy convert values of mixed types to a common type
+                self.valid_set = np.empty(len(valid_set), dtype=object)
+                for idx, item in enumerate(valid_set):
+                    self.valid_set[idx] = item
             self.n_vars = len(valid_set)
             self.le = LabelEncoder().fit(valid_set)
             self.lb = np.zeros(self.n_vars)
-- 
2.43.0


From 5daef6b3d713468593487ca974601faa2f957d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 127/245] fix: SequenceVar.generate ignored return_type

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index c476071..4296f28 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -306,7 +306,7 @@ class SequenceVar(BaseVar):
 
     def generate(self):
         idx = self.generator.integers(0, len(self.valid_sets))
-        return self.valid_sets[idx]
+        return self.return_type(self.valid_sets[idx])
 
 
 class PermutationVar(BaseVar):
-- 
2.43.0


From 72e96020c9cb8e2b951f36854c2aa38f52c0a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 128/245] fix: Target without weights had None instead of the
 equal weights it is scored with

---
 mealpy/utils/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/target.py b/mealpy/utils/target.py
index 669851b..d5cab87 100644
--- a/mealpy/utils/target.py
+++ b/mealpy/utils/target.py
@@ -53,7 +53,7 @@ class Target:
 
     def set_weights(self, weights):
         if weights is None:
-            self._weights = len(self.objectives)
+            weights = np.ones(len(self.objectives))
         else:
             if type(weights) not in self.SUPPORTED_ARRAY:
                 if isinstance(weights, numbers.Number):
-- 
2.43.0


From b9c34a5f6e9f62da94582d49f686aa39e1cf340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 129/245] fix: Target replaced weights that don't match the
 objectives by ones without a word

---
 mealpy/utils/target.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/target.py b/mealpy/utils/target.py
index d5cab87..6e51198 100644
--- a/mealpy/utils/target.py
+++ b/mealpy/utils/target.py
@@ -60,7 +60,9 @@ class Target:
                     weights = [weights, ] * len(self.objectives)
                 else:
                     raise ValueError(f"Invalid weights. It should be a list, tuple, np.ndarray.")
-            weights = np.array(weights).flatten()
+            weights = np.array(weights, dtype=float).flatten()
+            if len(weights) != len(self.objectives):
+                raise ValueError(f"Invalid weights. Its length {len(weights)} should equal to number of objectives {len(self.objectives)}.")
         self._weights = weights
 
     @property
@@ -80,7 +82,7 @@ class Target:
         """
         # Calculate the weighted sum of the objectives
         if not (type(weights) in self.SUPPORTED_ARRAY and len(weights) == len(self.objectives)):
-            weights = len(self.objectives) * (1.,)
+            raise ValueError(f"Invalid weights. It should be a list, tuple, np.ndarray with same length as objectives.")
         self._fitness = np.dot(weights, self.objectives)
 
     def __str__(self):
-- 
2.43.0


From b972aad7c5c256243451d0e97dbf9da5ff9a487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 130/245] fix: Target accepted an empty list of objectives
 (scored 0), complex numbers and non-numbers

---
 mealpy/utils/target.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/utils/target.py b/mealpy/utils/target.py
index 6e51198..a184219 100644
--- a/mealpy/utils/target.py
+++ b/mealpy/utils/target.py
@@ -44,6 +44,8 @@ class Target:
                 else:
                     raise ValueError(f"Invalid objectives. It should be a list, tuple, np.ndarray, int or float.")
             objs = np.array(objs).flatten()
+            if len(objs) == 0 or not (objs.dtype.kind in "biuf" or all(isinstance(obj, numbers.Real) for obj in objs)):
+                raise ValueError(f"Invalid objectives. It should contain at least one real number, and real numbers only.")
         self._objectives = objs
 
     @property
-- 
2.43.0


From a70affa7fb8c21d37c5c30d79b47cd0d3d49c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 131/245] fix: Target scored NaN when a weight is None or NaN
 instead of refusing it

---
 mealpy/utils/target.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/target.py b/mealpy/utils/target.py
index a184219..d5df343 100644
--- a/mealpy/utils/target.py
+++ b/mealpy/utils/target.py
@@ -63,8 +63,8 @@ class Target:
                 else:
                     raise ValueError(f"Invalid weights. It should be a list, tuple, np.ndarray.")
             weights = np.array(weights, dtype=float).flatten()
-            if len(weights) != len(self.objectives):
-                raise ValueError(f"Invalid weights. Its length {len(weights)} should equal to number of objectives {len(self.objectives)}.")
+            if len(weights) != len(self.objectives) or np.any(np.isnan(weights)):
+                raise ValueError(f"Invalid weights. It should contain {len(self.objectives)} numbers, one for each objective.")
         self._weights = weights
 
     @property
-- 
2.43.0


From dc9a1b33a5b80ccc2101fe16af7c907b6237ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 132/245] fix: Target.calculate_fitness overflowed for integer
 weights and lost precision for mixed objectives

---
 mealpy/utils/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/target.py b/mealpy/utils/target.py
index d5df343..4346695 100644
--- a/mealpy/utils/target.py
+++ b/mealpy/utils/target.py
@@ -85,7 +85,7 @@ class Target:
         # Calculate the weighted sum of the objectives
         if not (type(weights) in self.SUPPORTED_ARRAY and len(weights) == len(self.objectives)):
             raise ValueError(f"Invalid weights. It should be a list, tuple, np.ndarray with same length as objectives.")
-        self._fitness = np.dot(weights, self.objectives)
+        self._fitness = np.dot(np.asarray(weights, dtype=float), self.objectives.astype(float))
 
     def __str__(self):
         return f"Objectives: {self.objectives}, Fitness: {self.fitness}"
-- 
2.43.0


From aceb8f59e81f8285f9a2e2d0a0800362410ce855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 133/245] fix: OriginalBCO refused its own default
 n_chemotaxis, so BCO and get_all_optimizers() failed with the defaults

---
 mealpy/bio_based/BCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index 27383ff..4a4389d 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -23,7 +23,7 @@ class OriginalBCO(Optimizer):
     c_max : float
         Maximum chemotaxis step size, in range (c_min, 10.0). Default is 0.2.
     n_chemotaxis : int
-        Nonlinear parameter for chemotaxis step, in range (1, 5). Default is 1.
+        Nonlinear parameter for chemotaxis step, in range [1, 5]. Default is 1.
     max_swim_steps : int
         Maximum swimming steps, in range (2, 10). Default is 4.
     migration_prob : float
@@ -68,7 +68,7 @@ class OriginalBCO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.c_min = self.validator.check_float("c_min", c_min, (0., 1.0))
         self.c_max = self.validator.check_float("c_max", c_max, (c_min, 10.0))
-        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, (1, 5))
+        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, [1, 5])
         self.max_swim_steps = self.validator.check_int("max_swim_steps", max_swim_steps, (2, 10))
         self.migration_prob = self.validator.check_float("migration_prob", migration_prob, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "c_min", "c_max", "n_chemotaxis", "max_swim_steps", "migration_prob"])
-- 
2.43.0


From a77c7e0b17813f6dcb6c638de661a1dd945578cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 134/245] fix: OriginalSA and GaussianSA left pop_size out of
 their parameters

---
 mealpy/physics_based/SA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index 2442ddf..5bda97a 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -67,7 +67,7 @@ class OriginalSA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [2, 10000])
         self.temp_init = self.validator.check_float("temp_init", temp_init, [1, 10000])
         self.step_size = self.validator.check_float("step_size", step_size, (-100., 100.))
-        self.set_parameters(["epoch", "temp_init", "step_size"])
+        self.set_parameters(["epoch", "pop_size", "temp_init", "step_size"])
 
     def before_main_loop(self):
         self.agent_current = self.g_best.copy()
@@ -161,7 +161,7 @@ class GaussianSA(Optimizer):
         self.temp_init = self.validator.check_float("temp_init", temp_init, [1, 10000])
         self.cooling_rate = self.validator.check_float("cooling_rate", cooling_rate, (0., 1.))
         self.scale = self.validator.check_float("scale", scale, (0., 100.))
-        self.set_parameters(["epoch", "temp_init", "cooling_rate", "scale"])
+        self.set_parameters(["epoch", "pop_size", "temp_init", "cooling_rate", "scale"])
 
     def before_main_loop(self):
         # Initialize the system
-- 
2.43.0


From e19a6354e3a279916602ef9459faaff7a9c7912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:58 +0000
Subject: [PATCH 135/245] fix: Validator answered complex numbers with
 TypeError and let NaN pass as a number inside any infinite bound

---
 mealpy/utils/validator.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mealpy/utils/validator.py b/mealpy/utils/validator.py
index 30b563a..91e454c 100644
--- a/mealpy/utils/validator.py
+++ b/mealpy/utils/validator.py
@@ -6,7 +6,7 @@
 
 import numpy as np
 import operator
-from numbers import Number
+from numbers import Number, Complex, Real
 from mealpy.utils.logger import Logger
 
 SEQUENCE = (list, tuple, np.ndarray)
@@ -31,6 +31,11 @@ def is_in_bound(value, bound):
     return False
 
 
+def is_number(value):
+    """A real number: complex numbers and NaN can't be compared with any bound"""
+    return isinstance(value, Number) and (isinstance(value, Real) or not isinstance(value, Complex)) and bool(value == value)
+
+
 def is_str_in_list(value: str, my_list: list):
     if type(value) == str and my_list is not None:
         return True if value in my_list else False
@@ -50,7 +55,7 @@ class Validator:
             setattr(self, key, value)
 
     def check_int(self, name:str, value: int, bound=None):
-        if isinstance(value, Number):
+        if is_number(value):
             if bound is None:
                 return int(value)
             elif is_in_bound(value, bound):
@@ -59,7 +64,7 @@ class Validator:
         raise ValueError(f"'{name}' is an integer {bound}.")
 
     def check_float(self, name: str, value: float, bound=None):
-        if isinstance(value, Number):
+        if is_number(value):
             if bound is None:
                 return float(value)
             elif is_in_bound(value, bound):
@@ -96,7 +101,7 @@ class Validator:
 
     def check_tuple_float(self, name: str, values: tuple, bounds=None):
         if isinstance(values, SEQUENCE) and len(values) > 1:
-            value_flag = [isinstance(item, Number) for item in values]
+            value_flag = [is_number(item) for item in values]
             if np.all(value_flag):
                 if bounds is not None and len(bounds) == len(values):
                     value_flag = [is_in_bound(item, bound) for item, bound in zip(values, bounds)]
-- 
2.43.0


From 1507bac5ea191631ecb9469195c54f064936c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 136/245] fix: Validator.check_int answered infinity with
 OverflowError

---
 mealpy/utils/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/validator.py b/mealpy/utils/validator.py
index 91e454c..07b5b3f 100644
--- a/mealpy/utils/validator.py
+++ b/mealpy/utils/validator.py
@@ -55,7 +55,7 @@ class Validator:
             setattr(self, key, value)
 
     def check_int(self, name:str, value: int, bound=None):
-        if is_number(value):
+        if is_number(value) and abs(value) != float("inf"):
             if bound is None:
                 return int(value)
             elif is_in_bound(value, bound):
-- 
2.43.0


From de1e29f206e0f4690e313d97bc57237cdc28bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 137/245] fix: Validator.check_tuple_int/float didn't check
 anything when the number of values differs from the number of bounds

---
 mealpy/utils/validator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/utils/validator.py b/mealpy/utils/validator.py
index 07b5b3f..0ad663f 100644
--- a/mealpy/utils/validator.py
+++ b/mealpy/utils/validator.py
@@ -90,12 +90,12 @@ class Validator:
         if isinstance(values, SEQUENCE) and len(values) > 1:
             value_flag = [isinstance(item, DIGIT) for item in values]
             if np.all(value_flag):
-                if bounds is not None and len(bounds) == len(values):
+                if bounds is None:
+                    return values
+                elif len(bounds) == len(values):
                     value_flag = [is_in_bound(item, bound) for item, bound in zip(values, bounds)]
                     if np.all(value_flag):
                         return values
-                else:
-                    return values
         bounds = "" if bounds is None else f"and values should be in range: {bounds}"
         raise ValueError(f"'{name}' are integer {bounds}.")
 
@@ -103,12 +103,12 @@ class Validator:
         if isinstance(values, SEQUENCE) and len(values) > 1:
             value_flag = [is_number(item) for item in values]
             if np.all(value_flag):
-                if bounds is not None and len(bounds) == len(values):
+                if bounds is None:
+                    return values
+                elif len(bounds) == len(values):
                     value_flag = [is_in_bound(item, bound) for item, bound in zip(values, bounds)]
                     if np.all(value_flag):
                         return values
-                else:
-                    return values
         bounds = "" if bounds is None else f"and values should be in range: {bounds}"
         raise ValueError(f"'{name}' are float {bounds}.")
 
-- 
2.43.0


From c1196318c32992400d1c1ece3e2c55f6698a11c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:21 +0000
Subject: [PATCH 138/245] fix: MGTO reported its parameter pp under the name p1
 when refusing it

---
 mealpy/swarm_based/AGTO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/AGTO.py b/mealpy/swarm_based/AGTO.py
index 28dad34..0de760a 100644
--- a/mealpy/swarm_based/AGTO.py
+++ b/mealpy/swarm_based/AGTO.py
@@ -178,7 +178,7 @@ class MGTO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.pp = self.validator.check_float("p1", pp, (0, 1))      # p in the paper
+        self.pp = self.validator.check_float("pp", pp, (0, 1))      # p in the paper
         self.set_parameters(["epoch", "pop_size", "pp"])
         self.sort_flag = False
 
-- 
2.43.0


From f666be55110ba8bfa319dab9f1d0870eedf0e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 139/245] fix: ParameterGrid of an iterator of grids was empty
 after its check had consumed it

---
 mealpy/tuner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 61fd74e..a2e6a1d 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -62,6 +62,7 @@ class ParameterGrid:
         if isinstance(param_grid, abc.Mapping):
             # wrap dictionary in a singleton list to support either dict or list of dicts
             param_grid = [param_grid]
+        param_grid = list(param_grid)       # an iterator can be read only once
 
         # check if all entries are dictionaries of lists
         for grid in param_grid:
-- 
2.43.0


From a2557b53aab0ce6f7dc4f4d6634a75216acfe1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 140/245] fix: ParameterGrid[i] used the removed numpy.product,
 and its order was not the order of the iteration

---
 mealpy/tuner.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index a2e6a1d..3bfef4b 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -118,6 +118,10 @@ class ParameterGrid:
             Equal to list(self)[ind]
         """
         # This is used to make discrete sampling without replacement memory efficient.
+        if ind < 0:
+            ind += len(self)
+        if ind < 0:
+            raise IndexError("ParameterGrid index out of range")
         for sub_grid in self.param_grid:
             # XXX: could memoize information used here
             if not sub_grid:
@@ -128,11 +132,10 @@ class ParameterGrid:
                     continue
 
             # Reverse so most frequent cycling parameter comes first
-            # keys, values_lists = zip(*sorted(sub_grid.items())[::-1])
-            ## My version: Don't sort the values and don't reverse here. Keep it as it is
-            keys, values_lists = zip(*sub_grid.items())
+            ## My version: Don't sort the keys here. Keep it as it is
+            keys, values_lists = zip(*list(sub_grid.items())[::-1])
             sizes = [len(v_list) for v_list in values_lists]
-            total = np.product(sizes)
+            total = reduce(operator.mul, sizes)
 
             if ind >= total:
                 # Try the next grid
@@ -142,7 +145,7 @@ class ParameterGrid:
                 for key, v_list, n in zip(keys, values_lists, sizes):
                     ind, offset = divmod(ind, n)
                     out[key] = v_list[offset]
-                return out
+                return {key: out[key] for key in sub_grid}
 
         raise IndexError("ParameterGrid index out of range")
 
-- 
2.43.0


From e07dc3dbd55ed34606f66dde405703d5b4252b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 141/245] fix: Tuner.execute refused n_jobs=1, which is
 documented as sequential

---
 mealpy/tuner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 3bfef4b..7fcec3e 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -392,7 +392,7 @@ class Tuner:
         self.problem = problem
         self.n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_cpus = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_cpus = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         if mode not in ("process", "thread", "single", "swarm"):
-- 
2.43.0


From 8282acbe4a10b5b461e9be16e161433beb1c1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 142/245] fix: Multitask.execute refused n_jobs=1, which is
 documented as sequential

---
 mealpy/multitask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index a902db0..04b5f12 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -173,7 +173,7 @@ class Multitask:
         """
         n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_processors = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_processors = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         ## Get export function
-- 
2.43.0


From a597fd679b1d3f5b3a4f0adfbedc0bea7def9b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 143/245] fix: Tuner.execute crashed for a Problem instance and
 for a problem dictionary without minmax

---
 mealpy/tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 7fcec3e..96fac59 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -400,7 +400,8 @@ class Tuner:
 
         list_params_grid = list(ParameterGrid(self.param_grid))
         trial_columns = [f"trial_{id_trial}" for id_trial in range(1, self.n_trials + 1)]
-        ascending = True if self.problem["minmax"] == "min" else False
+        minmax = self.problem.minmax if isinstance(self.problem, Problem) else self.problem.get("minmax", "min")
+        ascending = minmax != "max"
 
         best_fit_results = []
         loss_results = []
-- 
2.43.0


From 71ab5bb4abe802ccdd6b22f9fc1acefc6161f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 144/245] fix: Tuner reported the worst parameters as the best
 ones for maximization problems

---
 mealpy/tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 96fac59..7734cdd 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -431,8 +431,8 @@ class Tuner:
         self.df_fit["trial_mean"] = self.df_fit[trial_columns].mean(axis=1)
         self.df_fit["trial_std"] = self.df_fit[trial_columns].std(axis=1)
         self.df_fit["rank_mean"] = self.df_fit["trial_mean"].rank(ascending=ascending)
-        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=ascending)
-        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=ascending)
+        self.df_fit["rank_std"] = self.df_fit["trial_std"].fillna(0).rank(ascending=True)
+        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=True)
         self._best_row = self.df_fit[self.df_fit["rank_mean_std"] == self.df_fit["rank_mean_std"].min()]
         self._best_params = self._best_row["params"].values[0]
         self._best_score = self._best_row["trial_mean"].values[0]
-- 
2.43.0


From d4e77f4052d0ad721d59b12083d1663793b52c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 145/245] fix: solve() wrote a seed entry into the caller's
 problem dictionary

---
 mealpy/optimizer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 36cefb3..b530d01 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -163,8 +163,7 @@ class Optimizer:
             problem.set_seed(seed)
             self.problem = problem
         elif type(problem) == dict:
-            problem["seed"] = seed
-            self.problem = Problem(**problem)
+            self.problem = Problem(**{**problem, "seed": seed})
         else:
             raise ValueError("problem needs to be a dict or an instance of Problem class.")
         self.generator = np.random.default_rng(seed)
-- 
2.43.0


From a15ada5cb644bd1841be75284df360abbb1d8eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 146/245] fix: Multitask crashed for one mode/termination per
 algorithm, misread n*m of them and one algorithm's matrix row

---
 mealpy/multitask.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index 04b5f12..828839c 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -98,14 +98,18 @@ class Multitask:
         if values is None:
             return None
         elif type(values) in (list, tuple):
-            if len(values) == 1:
+            if len(values) == self.n_algorithms and all(type(item) in (list, tuple) and len(item) == self.m_problems for item in values):
+                values_final = [list(deepcopy(item)) for item in values]
+            elif any(type(item) in (list, tuple) for item in values):
+                raise ValueError(f"{name} should be a matrix with size (n, m), n: #algorithms, m: #problems.")
+            elif len(values) == 1:
                 values_final = [[deepcopy(values[0]) for _ in range(0, self.m_problems)] for _ in range(0, self.n_algorithms)]
             elif len(values) == self.n_algorithms:
-                values_final = [deepcopy(values[idx] for _ in range(0, self.m_problems)) for idx in range(0, self.n_algorithms)]
+                values_final = [[deepcopy(values[idx]) for _ in range(0, self.m_problems)] for idx in range(0, self.n_algorithms)]
             elif len(values) == self.m_problems:
                 values_final = [deepcopy(values) for _ in range(0, self.n_algorithms)]
             elif len(values) == (self.n_algorithms * self.m_problems):
-                values_final = values
+                values_final = [list(deepcopy(values[idx * self.m_problems:(idx + 1) * self.m_problems])) for idx in range(0, self.n_algorithms)]
             else:
                 raise ValueError(f"{name} should be list of {kind} instances with size (1) or (n) or (m) or (n*m), n: #algorithms, m: #problems.")
             return values_final
-- 
2.43.0


From 41b492a9ab39e823fd3ebaf2da4d4e4b5e0268ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 147/245] fix: Multitask overwrote the results of problems or
 algorithms with the same name

---
 mealpy/multitask.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index 828839c..e4fad46 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -184,14 +184,20 @@ class Multitask:
         save_as = self.validator.check_str("save_as", save_as, ["csv", "json", "dataframe"])
         export_function = getattr(self, f"export_to_{save_as}")
 
+        algorithm_names = set()
         for id_optimizer, optimizer in enumerate(self.algorithms):
             if not isinstance(optimizer, Optimizer):
                 print(f"Model: {id_optimizer+1} is not an instance of Optimizer class.")
                 continue
 
+            algorithm_name = optimizer.get_name()
+            while algorithm_name in algorithm_names:       # another algorithm has the same name
+                algorithm_name = f"{algorithm_name}_{id_optimizer + 1}"
+            algorithm_names.add(algorithm_name)
+
             ## Check parent directories
             path_best_fit = f"{save_path}/best_fit"
-            path_convergence = f"{save_path}/convergence/{optimizer.get_name()}"
+            path_convergence = f"{save_path}/convergence/{algorithm_name}"
             Path(path_best_fit).mkdir(parents=True, exist_ok=True)
             Path(path_convergence).mkdir(parents=True, exist_ok=True)
 
@@ -225,13 +231,16 @@ class Multitask:
                         if verbose:
                             print(f"Solving problem: {result['problem_name']} using algorithm: {optimizer.get_name()}, on the: {result['id_trial']} trial")
 
-                best_fit_optimizer_results[result['problem_name']] = best_fit_trials
+                problem_name = result['problem_name']
+                while problem_name in best_fit_optimizer_results:      # another problem has the same name
+                    problem_name = f"{problem_name}_{id_prob + 1}"
+                best_fit_optimizer_results[problem_name] = best_fit_trials
                 if save_convergence:
                     max_length = max([len(col) for col in convergence_trials.values()])
                     for kk, vv in convergence_trials.items():
                         convergence_trials[kk] = list(vv) + [float('nan')] * (max_length - len(vv))
                     df1 = pd.DataFrame(convergence_trials)
-                    export_function(df1, f"{path_convergence}/{result['problem_name']}_convergence")
+                    export_function(df1, f"{path_convergence}/{problem_name}_convergence")
 
             df2 = pd.DataFrame(best_fit_optimizer_results)
-            export_function(df2, f"{path_best_fit}/{optimizer.get_name()}_best_fit")
+            export_function(df2, f"{path_best_fit}/{algorithm_name}_best_fit")
-- 
2.43.0


From 68f499d5fcf7b29767a867c6f455f4879ff2e3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 148/245] fix: Tuner.export_figures crashed when only one
 parameter is tuned

---
 mealpy/tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 7734cdd..ddee9e2 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -313,7 +313,7 @@ class Tuner:
             Path(save_path_new).mkdir(parents=True, exist_ok=True)
             for idx_para, para in enumerate(para_columns):
                 selected_paras = para_columns[:idx_para] + para_columns[idx_para + 1:]
-                group_paras = groups.groupby(selected_paras)
+                group_paras = groups.groupby(selected_paras) if selected_paras else [((), groups)]
                 for idx_group, group_df in group_paras:
                     if len(group_df) <= 1:
                         continue
@@ -339,7 +339,7 @@ class Tuner:
                     plt.xlabel(x_label)
                     plt.ylabel(y_label)
                     plt.legend(legends)
-                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)])
+                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)]) or para
                     for idx, ext in enumerate(exts):
                         plt.savefig(f"{save_path_new}/{fname}{ext}", bbox_inches='tight')
                     if platform.system() != "Linux" and verbose:
-- 
2.43.0


From cb892afa623f4b2c350e2ae9dabd6a7cd9688524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 149/245] fix: compare_target, compare_fitness and
 get_better_agent took an equal one as better, for maximization only

---
 mealpy/optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index b530d01..e04cd79 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -453,14 +453,14 @@ class Optimizer:
         if minmax == "min":
             return True if target_x.fitness < target_y.fitness else False
         else:
-            return False if target_x.fitness < target_y.fitness else True
+            return True if target_x.fitness > target_y.fitness else False
 
     @staticmethod
     def compare_fitness(fitness_x: Union[float, int], fitness_y: Union[float, int], minmax: str = "min") -> bool:
         if minmax == "min":
             return True if fitness_x < fitness_y else False
         else:
-            return False if fitness_x < fitness_y else True
+            return True if fitness_x > fitness_y else False
 
     @staticmethod
     def duplicate_pop(pop: List[Agent]) -> List[Agent]:
@@ -583,7 +583,7 @@ class Optimizer:
         if idx == 0:
             return agent_x.copy() if agent_x.target.fitness < agent_y.target.fitness else agent_y.copy()
         else:
-            return agent_y.copy() if agent_x.target.fitness < agent_y.target.fitness else agent_x.copy()
+            return agent_x.copy() if agent_x.target.fitness > agent_y.target.fitness else agent_y.copy()
 
     ### Survivor Selection
     @staticmethod
-- 
2.43.0


From d8cb1b8d1aa190d5dcd26ca65a50f2583205f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 150/245] fix: improved_ms ignored the problem's direction,
 kept stale targets in single mode and lost an agent of an odd population

---
 mealpy/optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index e04cd79..dcf4bd2 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -823,7 +823,7 @@ class Optimizer:
     def improved_ms(self, pop=None, g_best=None):  ## m: mutation, s: search
         pop_len = int(len(pop) / 2)
         ## Sort the updated population based on fitness
-        pop = sorted(pop, key=lambda agent: agent.target.fitness)
+        pop, _ = self.get_sorted_population(pop, self.problem.minmax)
         pop_s1, pop_s2 = pop[:pop_len], pop[pop_len:]
 
         ## Mutation scheme
@@ -832,6 +832,8 @@ class Optimizer:
             agent = pop_s1[idx].copy()
             pos_new = pop_s1[idx].solution * (1 + self.generator.normal(0, 1, self.problem.n_dims))
             agent.solution = self.correct_solution(pos_new)
+            if self.mode not in self.AVAILABLE_MODES:
+                agent.target = self.get_target(agent.solution)
             pop_new.append(agent)
         pop_new = self.update_target_for_population(pop_new)
         pop_s1 = self.greedy_selection_population(pop_s1, pop_new, self.problem.minmax)  ## Greedy method --> improved exploitation
@@ -840,11 +842,13 @@ class Optimizer:
         pos_s1_list = [agent.solution for agent in pop_s1]
         pos_s1_mean = np.mean(pos_s1_list, axis=0)
         pop_new = []
-        for idx in range(0, pop_len):
+        for idx in range(0, len(pop_s2)):
             agent = pop_s2[idx].copy()
             pos_new = (g_best.solution - pos_s1_mean) - self.generator.random() * \
                       (self.problem.lb + self.generator.random() * (self.problem.ub - self.problem.lb))
             agent.solution = self.correct_solution(pos_new)
+            if self.mode not in self.AVAILABLE_MODES:
+                agent.target = self.get_target(agent.solution)
             pop_new.append(agent)
         ## Keep the diversity of populatoin and still improved the exploration
         pop_s2 = self.update_target_for_population(pop_new)
-- 
2.43.0


From db54a2b12beb7dc0703255c3f28a1c39e985243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 151/245] fix: GRSA compared targets as for minimization
 whatever the direction

---
 mealpy/physics_based/GRSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/GRSA.py b/mealpy/physics_based/GRSA.py
index f6e0c95..29e830c 100644
--- a/mealpy/physics_based/GRSA.py
+++ b/mealpy/physics_based/GRSA.py
@@ -170,7 +170,7 @@ class OriginalGRSA(Optimizer):
             self.pop = self.update_target_for_population(pop_new)
 
         for idx in range(self.pop_size):
-            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx]):
+            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx], self.problem.minmax):
                 self.geodesic_f[idx] = self.pop[idx].target.fitness
                 self.geodesic_x_p[idx] = self.pop[idx].solution.copy()
 
-- 
2.43.0


From c477b900a8a386bfec3ae4558a2ffb646e2217be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 152/245] fix: ESO compared targets as for minimization
 whatever the direction

---
 mealpy/physics_based/ESO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ESO.py b/mealpy/physics_based/ESO.py
index 967c6e2..665f8c4 100644
--- a/mealpy/physics_based/ESO.py
+++ b/mealpy/physics_based/ESO.py
@@ -161,7 +161,7 @@ class OriginalESO(Optimizer):
             agent_new = self.generate_agent(pos_new)
 
             # Select better position
-            if self.compare_target(agent_new.target, agent.target):
+            if self.compare_target(agent_new.target, agent.target, self.problem.minmax):
                 pop_new.append(agent_new)
             else:
                 pop_new.append(agent)
-- 
2.43.0


From e2945162644902856666073b162f706810310790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 153/245] fix: PSO compared targets as for minimization
 whatever the direction

---
 mealpy/swarm_based/PSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index 72890dd..5b95113 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -643,7 +643,7 @@ class C_PSO(P_PSO):
         x_best = self.problem.lb + cx_best_1 * (self.problem.ub - self.problem.lb)  # Eq. 8
         x_best = self.correct_solution(x_best)
         target_best = self.get_target(x_best)
-        if self.compare_target(target_best, self.g_best.target):
+        if self.compare_target(target_best, self.g_best.target, self.problem.minmax):
             g_best.update(solution=x_best, target=target_best)
 
         r = self.generator.random()
-- 
2.43.0


From ee03eae3c756f5c2db54c0e4e693fc649caa7f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 154/245] fix: EEFO compared targets as for minimization
 whatever the direction

---
 mealpy/swarm_based/EEFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/EEFO.py b/mealpy/swarm_based/EEFO.py
index f0e7236..fca9bdb 100644
--- a/mealpy/swarm_based/EEFO.py
+++ b/mealpy/swarm_based/EEFO.py
@@ -119,7 +119,7 @@ class OriginalEEFO(Optimizer):
                 agent_j = self.pop[jdx]
 
                 # Eq. (7): Interaction based on fitness comparison
-                if self.compare_target(agent_j.target, agent.target):
+                if self.compare_target(agent_j.target, agent.target, self.problem.minmax):
                     if self.generator.random() > 0.5:
                         pos_new = agent_j.solution + self.generator.standard_normal() * direct_vector * (mean_pop_pos - x)
                     else:
-- 
2.43.0


From 4ab1ea1d78e50aa3502b0aae1154d7bd983f7e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 155/245] fix: NGO compared targets as for minimization
 whatever the direction

---
 mealpy/swarm_based/NGO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NGO.py b/mealpy/swarm_based/NGO.py
index 25fb791..355879f 100644
--- a/mealpy/swarm_based/NGO.py
+++ b/mealpy/swarm_based/NGO.py
@@ -93,7 +93,7 @@ class OriginalNGO(Optimizer):
         for idx in range(0, self.pop_size):
             # Phase 1: Exploration
             kk = self.generator.permutation(self.pop_size)[0]
-            if self.compare_target(self.pop[kk].target, self.pop[idx].target):     # Eq. 4
+            if self.compare_target(self.pop[kk].target, self.pop[idx].target, self.problem.minmax):     # Eq. 4
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[kk].solution - self.generator.integers(1, 3) * self.pop[idx].solution)
             else:
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[idx].solution - self.pop[kk].solution)
-- 
2.43.0


From a74e2e3d0a6447db6d813d3681bfd2a97d5aeead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 156/245] fix: CCO compared targets as for minimization
 whatever the direction

---
 mealpy/swarm_based/CCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/CCO.py b/mealpy/swarm_based/CCO.py
index 1fd31d8..23b88cd 100644
--- a/mealpy/swarm_based/CCO.py
+++ b/mealpy/swarm_based/CCO.py
@@ -184,7 +184,7 @@ class OriginalCCO(Optimizer):
                             else:
                                 V = 2 * (rng.random() * (self.pop[kk[1]].solution - self.pop[kk[2]].solution) + rng.random() * (self.pop[kk[0]].solution - pos_ii))
 
-                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target):
+                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target, self.problem.minmax):
                                 step = pos_ii - E * self.pop[kk[idx]].solution
                                 if (idx + 1) % 2 == 1:
                                     pos_new = (pos_ii + (T ** 2) * self.y[idx] * (1 - R1) * np.abs(step)) + F * R1 * step / 2 + V * J_i / epoch
@@ -262,7 +262,7 @@ class OriginalCCO(Optimizer):
             agent = self.generate_agent(pos_new)
 
             # Replacement logic
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
                 # Q=1 logic: Replace the current worst in population
                 if Q == 1:
-- 
2.43.0


From 513cfdfd0e300254256387810dccc345c867142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 157/245] fix: IMODE rewarded its operators as for minimization
 whatever the direction

---
 mealpy/sota_based/IMODE.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/sota_based/IMODE.py b/mealpy/sota_based/IMODE.py
index d8fa722..afe2955 100644
--- a/mealpy/sota_based/IMODE.py
+++ b/mealpy/sota_based/IMODE.py
@@ -281,7 +281,7 @@ class OriginalIMODE(Optimizer):
         for idx in range(len(matrix_child)):
             pos_new = self.correct_solution(matrix_child[idx])
             agent = self.generate_agent(pos_new)
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 improvement_mask[idx] = True
             improvements[idx] = np.abs(self.pop[idx].target.fitness - agent.target.fitness)
             pop_new.append(agent)
@@ -290,7 +290,8 @@ class OriginalIMODE(Optimizer):
         op1_mask, op2_mask, op3_mask = self._select_operator_indices()
         fits = np.array([agent.target.fitness for agent in self.pop])
         fits_child = np.array([agent.target.fitness for agent in pop_new])
-        relative_improvements = np.maximum(0, (fits - fits_child) / np.abs(fits))
+        gains = fits - fits_child if self.problem.minmax == "min" else fits_child - fits
+        relative_improvements = np.maximum(0, gains / np.abs(fits))
 
         # Update archive with improved solutions
         if np.any(improvement_mask):
-- 
2.43.0


From 93e5257567582722417603a0510e6075881f27d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 158/245] fix: the log_to and log_file of a new solve replace
 the logging handler of the previous one

---
 mealpy/utils/logger.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/logger.py b/mealpy/utils/logger.py
index b0ff2d4..f27e7ad 100644
--- a/mealpy/utils/logger.py
+++ b/mealpy/utils/logger.py
@@ -48,6 +48,11 @@ class Logger:
                 formatter = logging.Formatter(format_str, datefmt="%Y/%m/%d %I:%M:%S %p")
             handler = logging.StreamHandler()
             handler.setFormatter(formatter)
-        if not logger.hasHandlers():
+        # Replace the handler of an earlier configuration, but keep the ones attached by the user
+        for old in [h for h in logger.handlers if getattr(h, "is_mealpy_handler", False)]:
+            logger.removeHandler(old)
+            old.close()
+        if self.log_to == "file" or not logger.hasHandlers():
+            handler.is_mealpy_handler = True
             logger.addHandler(handler)
         return logger
-- 
2.43.0


From 92921756c38c713c12ce0454e41f35ae4554c6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 159/245] fix: the missing-weights warning of a problem follows
 that problem's own log_to

---
 mealpy/utils/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/utils/problem.py b/mealpy/utils/problem.py
index 4c3144c..d17bbcd 100644
--- a/mealpy/utils/problem.py
+++ b/mealpy/utils/problem.py
@@ -27,6 +27,9 @@ class Problem:
         self.name, self.log_to, self.log_file = "P", "console", "history.txt"
         self.__set_keyword_arguments(kwargs)
         self.set_bounds(bounds)
+        self.set_logger()
+
+    def set_logger(self) -> None:
         self.logger = Logger(self.log_to, log_file=self.log_file).create_logger(name=f"{__name__}.{__class__.__name__}",
                                     format_str='%(asctime)s, %(levelname)s, %(name)s [line: %(lineno)d]: %(message)s')
 
@@ -47,6 +50,7 @@ class Problem:
                 raise ValueError("`obj_func` must return a number, list, tuple or numpy array.")
             if self.obj_weights is None:
                 if self._n_objs > 1:
+                    self.set_logger()   # Another problem may have been created in the meantime
                     self.logger.warning(
                         f"[Warning] Multi-objective problem detected (n_objs={self._n_objs}), "
                         f"but `obj_weights` not provided. Defaulting to equal weights."
-- 
2.43.0


From 0b1070462580c3852614f6348fba6b52044f3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 160/245] fix: get_optimizer_by_name() finds a class by its
 documented name and never returns the Optimizer base class

---
 mealpy/__init__.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/mealpy/__init__.py b/mealpy/__init__.py
index bf03a49..189956e 100644
--- a/mealpy/__init__.py
+++ b/mealpy/__init__.py
@@ -106,31 +106,26 @@ def get_optimizer_by_class(class_name: str, verbose: bool = False):
 
 def get_optimizer_by_name(name: str, verbose: bool = False):
     """
-    Get an optimizer class by name
+    Get the optimizer class(es) by name
 
     Args:
-        name (str): the classname of the optimizer (e.g, OriginalGA, OriginalWOA), don't pass the module name (e.g, ABC, WOA, GA)
+        name (str): the name of the algorithm's module (e.g, ABC, WOA, GA) or the classname of the optimizer (e.g, OriginalGA, OriginalWOA)
         verbose (bool): whether to print the optimizer information
 
     Returns:
-        dict_optimizers (dict): key is the string optimizer class name, value is the actual optimizer class
+        dict_optimizers (dict): all variants of that module, key is the string optimizer class name, value is the actual optimizer class
+        optimizer (Optimizer): the actual optimizer class if the name is a classname, or None if the name is not supported
     """
     cls = {}
-    flag = False
     for module_name, obj in inspect.getmembers(sys.modules[__name__]):
         if inspect.ismodule(obj) and (module_name == name) and (name not in __EXCLUDE_MODULES):
-            flag = True
             for cls_name, cls_obj in inspect.getmembers(obj):
-                if inspect.isclass(cls_obj) and issubclass(cls_obj, Optimizer):
+                if inspect.isclass(cls_obj) and issubclass(cls_obj, Optimizer) and cls_obj is not Optimizer:
                     cls[cls_name] = cls_obj
+    if len(cls) == 0:       # Not the name of an algorithm (module), so it should be the name of a class
+        return get_optimizer_by_class(name, verbose=False)
     if verbose:
-        if not flag:
-            print(f"Mealpy doesn't support optimizer named: {name}.\n"
-                  f"Please see the supported Optimizer name from here:\n"
-                  f"https://github.com/thieu1995/mealpy?tab=readme-ov-file#-optimizer-classification-table")
-            return None
-        del cls['Optimizer']
         print(f"Found algorithm: {name}, the supported variants are:")
-        for name, optimizer in cls.items():
-            print(f"Optimizer: {name} - {optimizer} - {optimizer()}")
+        for cls_name, optimizer in cls.items():
+            print(f"Optimizer: {cls_name} - {optimizer} - {optimizer()}")
     return cls
-- 
2.43.0


From e983d9b99b576c0147fb425018d737d3e120251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 161/245] fix: the icmic map stays finite for denormal inputs

---
 mealpy/utils/chaotic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/chaotic.py b/mealpy/utils/chaotic.py
index 2195fc6..3d1c931 100644
--- a/mealpy/utils/chaotic.py
+++ b/mealpy/utils/chaotic.py
@@ -43,8 +43,8 @@ class ChaoticMap:
     @staticmethod
     def icmic_map(x: float, a: float = 0.7) -> float:
         """Iterative chaotic map with infinite collapses"""
-        if x == 0:
-            return 0.1  # Avoid division by zero
+        if x == 0 or np.isinf(a / x):
+            return 0.1  # Avoid division by zero (or by a number so small that the quotient overflows)
         return np.abs(np.sin(a / x))
 
     @staticmethod
-- 
2.43.0


From b65c7a04ff9d73b247f88fc565f0ad16aa54e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 162/245] fix: the global best agent is one object with the
 last record of the history

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index dcf4bd2..040e3ef 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -645,7 +645,7 @@ class Optimizer:
             self.history.list_current_worst.append(c_worst.copy())
             worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
             self.history.list_global_worst.append(worse)
-            return sorted_pop, better
+            return sorted_pop, better.copy()
         else:
             ## The last entries in history belong to the previous epoch, so remember the best one until the end of this epoch
             best = self.history.list_global_best[-1] if self.mid_best is None else self.mid_best
-- 
2.43.0


From 5b2180c5c5464adabd3af11b70bfc626c9bd1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 163/245] fix: equally good agents are sorted the same way
 whatever the direction

---
 mealpy/optimizer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 040e3ef..a98699f 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -479,10 +479,8 @@ class Optimizer:
             Sorted population (1st agent is the best, last agent is the worst)
             Sorted index
         """
-        list_fits = [agent.target.fitness for agent in pop]
-        indices = np.argsort(list_fits).tolist()
-        if minmax == "max":
-            indices = indices[::-1]
+        list_fits = np.array([agent.target.fitness for agent in pop], dtype=float)
+        indices = np.argsort(list_fits if minmax == "min" else -list_fits).tolist()
         pop_new = [pop[idx] for idx in indices]
         return pop_new, indices
 
-- 
2.43.0


From 2b8d8c1704ea76f1d138ef6c94ddc196b05d24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 164/245] fix: GRSA groups its agents from best to worst
 whatever the direction

---
 mealpy/physics_based/GRSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/GRSA.py b/mealpy/physics_based/GRSA.py
index 29e830c..370d671 100644
--- a/mealpy/physics_based/GRSA.py
+++ b/mealpy/physics_based/GRSA.py
@@ -110,8 +110,8 @@ class OriginalGRSA(Optimizer):
 
         # Current status
         x_p = np.array([agent.solution for agent in self.pop])
-        fitness_list = np.array([agent.target.fitness for agent in self.pop])
-        sorted_indices = np.argsort(fitness_list)
+        _, sorted_indices = self.get_sorted_population(self.pop, self.problem.minmax)
+        sorted_indices = np.array(sorted_indices)
 
         # Precompute geometry indices
         sg_idx = np.array([i * n_orn_g for i in range(self.n_geometry)])
-- 
2.43.0


From 48cd68415adf196ea3923dd768c59dff2b3a45b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 165/245] fix: CHIO follows the best immune case whatever the
 direction

---
 mealpy/human_based/CHIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/CHIO.py b/mealpy/human_based/CHIO.py
index 11d0fe9..78df67e 100644
--- a/mealpy/human_based/CHIO.py
+++ b/mealpy/human_based/CHIO.py
@@ -104,7 +104,7 @@ class OriginalCHIO(Optimizer):
                     if idx_candidates[0].size == 0:
                         continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
@@ -221,7 +221,7 @@ class DevCHIO(OriginalCHIO):
                     if idx_candidates[0].size == 0:
                         continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
-- 
2.43.0


From 4d4363a135704c7dccc54c8cd56e6723f3974171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 166/245] fix: NRO ranks its nuclei whatever the direction

---
 mealpy/physics_based/NRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index 47b4ebe..38a7ad5 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -116,7 +116,7 @@ class OriginalNRO(Optimizer):
         ## Ionization stage
         ## Calculate the Pa through Eq. (10)
         pop_child = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        _, ranked_pop = self.get_sorted_population(self.pop, self.problem.minmax)
         for idx in range(self.pop_size):
             X_ion = self.pop[idx].solution.copy()
             if (ranked_pop[idx] * 1.0 / self.pop_size) < self.generator.random():
@@ -156,7 +156,7 @@ class OriginalNRO(Optimizer):
         ## Fusion Stage
         ### all ions obtained from ionization are ranked based on (14) - Calculate the Pc through Eq. (14)
         pop_new = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        _, ranked_pop = self.get_sorted_population(self.pop, self.problem.minmax)
         for idx in range(self.pop_size):
             i1, i2 = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 2, replace=False)
             #### Generate fusion nucleus
-- 
2.43.0


From e99fbcfb59e809318e708ae58f5e25121ead459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 167/245] fix: the ionized area of ESO is the best part of the
 population whatever the direction

---
 mealpy/physics_based/ESO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/ESO.py b/mealpy/physics_based/ESO.py
index 665f8c4..d4cda3a 100644
--- a/mealpy/physics_based/ESO.py
+++ b/mealpy/physics_based/ESO.py
@@ -81,6 +81,8 @@ class OriginalESO(Optimizer):
             percentile_threshold = (resistance / 2) * 100
             # Find solutions better than percentile
             fits = np.array([agent.target.fitness for agent in self.pop])
+            if self.problem.minmax == "max":
+                fits = -fits
             fitness_percentile = np.percentile(fits, percentile_threshold)
             ionized_indices = np.where(fits <= fitness_percentile)[0]
             ionized_pop = [self.pop[idx] for idx in ionized_indices]
-- 
2.43.0


From 6d401a1aee2fdcbbe3387af874abbd2bcb000e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 168/245] fix: SARO prefers the better clue whatever the
 direction

---
 mealpy/human_based/SARO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/SARO.py b/mealpy/human_based/SARO.py
index 658f82c..92f96f2 100644
--- a/mealpy/human_based/SARO.py
+++ b/mealpy/human_based/SARO.py
@@ -99,7 +99,8 @@ class DevSARO(Optimizer):
             #### Remove third loop here, also using random flight back when out of bound
             pos_new_1 = self.pop[k].solution + self.generator.uniform() * sd
             pos_new_2 = pop_x[idx].solution + self.generator.uniform() * sd
-            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se, self.pop[k].target.fitness < pop_x[idx].target.fitness)
+            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se,
+                                       self.compare_target(self.pop[k].target, pop_x[idx].target, self.problem.minmax))
             pos_new = np.where(condition, pos_new_1, pos_new_2)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From 29b70538e9374f5e8a133c1f86cb9f66c894db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 169/245] fix: FBIO gives the better location the higher
 probability whatever the direction

---
 mealpy/human_based/FBIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/human_based/FBIO.py b/mealpy/human_based/FBIO.py
index c87f824..635fc6e 100644
--- a/mealpy/human_based/FBIO.py
+++ b/mealpy/human_based/FBIO.py
@@ -56,6 +56,8 @@ class DevFBIO(Optimizer):
     def probability__(self, list_fitness=None):  # Eq.(3) in FBI Inspired Meta-Optimization
         max1 = np.max(list_fitness)
         min1 = np.min(list_fitness)
+        if self.problem.minmax == "max":
+            return (list_fitness - min1) / (max1 - min1 + self.EPSILON)
         return (max1 - list_fitness) / (max1 - min1 + self.EPSILON)
 
     def evolve(self, epoch):
-- 
2.43.0


From 6c23eb37cd46d1fc8d8c62fb8e25c68a7f802b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 170/245] fix: TOA learns from a better group whatever the
 direction

---
 mealpy/human_based/TOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/TOA.py b/mealpy/human_based/TOA.py
index 4342cb8..313f532 100644
--- a/mealpy/human_based/TOA.py
+++ b/mealpy/human_based/TOA.py
@@ -109,7 +109,7 @@ class OriginalTOA(Optimizer):
                 sf_pos = self.correct_solution(np.mean(sf_pos, axis=0))
                 sf = self.generate_agent(sf_pos)
             pos_new = self.pop[idx].solution + self.generator.random() * (sf.solution - self.generator.integers(1, 3) *
-                                    self.pop[idx].solution) * np.sign(self.pop[idx].target.fitness - sf.target.fitness)
+                                    self.pop[idx].solution) * np.sign(self.pop[idx].target.fitness - sf.target.fitness) * (1 if self.problem.minmax == "min" else -1)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_agent(pos_new)
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
-- 
2.43.0


From 2cb7e48fb4eecefab1059cd67a88d90a5b27282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 171/245] fix: SRSR measures the progress of a robot whatever
 the direction

---
 mealpy/swarm_based/SRSR.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index dd37d60..3983995 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -121,7 +121,7 @@ class OriginalSRSR(Optimizer):
 
         for idx in range(0, self.pop_size):
             # --------- Calculate Degree Of Cost Movement Of Robots During Movement --------------
-            self.pop[idx].target_move = self.pop[idx].target.fitness - self.pop[idx].target_new.fitness
+            self.pop[idx].target_move = (self.pop[idx].target.fitness - self.pop[idx].target_new.fitness) * (1 if self.problem.minmax == "min" else -1)
             self.pop[idx].solution_new = pop_new[idx].solution.copy()
             self.pop[idx].target_new = pop_new[idx].target.copy()
             # ---------- Progress Assessment: Replacing More Quality Solutions With Previous Ones ------
@@ -160,7 +160,7 @@ class OriginalSRSR(Optimizer):
 
         for idx in range(0, self.pop_size):
             # --------- Calculate Degree Of Cost Movement Of Robots During Movement --------------
-            self.pop[idx].target_move = self.pop[idx].target.fitness - self.pop[idx].target_new.fitness
+            self.pop[idx].target_move = (self.pop[idx].target.fitness - self.pop[idx].target_new.fitness) * (1 if self.problem.minmax == "min" else -1)
             self.pop[idx].solution_new = pop_new[idx].solution.copy()
             self.pop[idx].target_new = pop_new[idx].target.copy()
             # ---------- Progress Assessment: Replacing More Quality Solutions With Previous Ones ------
-- 
2.43.0


From 240b0326bfd5d75ca396e04d8478528615927c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 172/245] fix: the depredation of CRO removes the worst corals
 whatever the direction

---
 mealpy/evolutionary_based/CRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index f15b4f4..737c741 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -143,7 +143,7 @@ class OriginalCRO(Optimizer):
 
     def sort_occupied_reef__(self):
         def reef_fitness(idx):
-            return self.pop[idx].target.fitness
+            return self.pop[idx].target.fitness if self.problem.minmax == "min" else -self.pop[idx].target.fitness
         return sorted(self.occupied_idx_list, key=reef_fitness)
 
     def broadcast_spawning_brooding__(self):
-- 
2.43.0


From 034408e5c1d10e23c8a4c085240b7e75fe0fb67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 173/245] fix: HGSO replaces its worst agents whatever the
 direction

---
 mealpy/physics_based/HGSO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/HGSO.py b/mealpy/physics_based/HGSO.py
index 812fbbe..6b787c5 100644
--- a/mealpy/physics_based/HGSO.py
+++ b/mealpy/physics_based/HGSO.py
@@ -127,7 +127,8 @@ class OriginalHGSO(Optimizer):
         ## Rank and select the number of worst agents using Eq. 11
         N_w = int(self.pop_size * (self.generator.uniform(0, 0.1) + 0.1))
         ## Update the position of the worst agents using Eq. 12
-        sorted_id_pos = np.argsort([x.target.fitness for x in self.pop])
+        _, sorted_id_pos = self.get_sorted_population(self.pop, self.problem.minmax)
+        sorted_id_pos = sorted_id_pos[::-1]
 
         pop_new = []
         pop_idx = []
-- 
2.43.0


From 77aba6d4d6b1e27eb2f6e30da7c33df8692e2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 174/245] fix: TWO gives the better team the larger weight
 whatever the direction

---
 mealpy/physics_based/TWO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index a2a950e..affb17a 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -79,6 +79,8 @@ class OriginalTWO(Optimizer):
 
     def update_weight__(self, teams):
         list_fits = np.array([agent.target.fitness for agent in teams])
+        if self.problem.minmax == "max":
+            list_fits = -list_fits
         maxx, minn = np.max(list_fits), np.min(list_fits)
         if maxx == minn:
             list_fits = self.generator.uniform(0.0, 1.0, self.pop_size)
-- 
2.43.0


From 6f2ba13af8a435a41dba8e12caad2c314ee0911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 175/245] fix: ASO gives the better atom the larger mass
 whatever the direction

---
 mealpy/physics_based/ASO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/ASO.py b/mealpy/physics_based/ASO.py
index 46c6e4d..efc9c6c 100644
--- a/mealpy/physics_based/ASO.py
+++ b/mealpy/physics_based/ASO.py
@@ -87,6 +87,8 @@ class OriginalASO(Optimizer):
 
     def update_mass__(self, population):
         list_fit = np.array([agent.target.fitness for agent in population])
+        if self.problem.minmax == "max":
+            list_fit = -list_fit
         list_fit = np.exp(-(list_fit - np.max(list_fit)) / (np.max(list_fit) - np.min(list_fit) + self.EPSILON))
         list_fit = list_fit / np.sum(list_fit)
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 4caa568aaf0ccae3fcdd20867c41eac72dc9e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 176/245] fix: FA gives the better firework more sparks
 whatever the direction

---
 mealpy/swarm_based/FA.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/FA.py b/mealpy/swarm_based/FA.py
index 20d913f..155843e 100644
--- a/mealpy/swarm_based/FA.py
+++ b/mealpy/swarm_based/FA.py
@@ -87,13 +87,15 @@ class OriginalFA(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        fit_list = np.array([agent.target.fitness for agent in self.pop])
-        fit_list = sorted(fit_list)
+        fits = np.array([agent.target.fitness for agent in self.pop])
+        if self.problem.minmax == "max":
+            fits = -fits
+        fit_list = sorted(fits)
         pop_new = []
         for idx in range(0, self.pop_size):
-            si = self.max_sparks * (fit_list[-1] - self.pop[idx].target.fitness) / \
+            si = self.max_sparks * (fit_list[-1] - fits[idx]) / \
                  (self.pop_size * fit_list[-1] - np.sum(fit_list) + self.EPSILON)
-            Ai = self.max_ea * (self.pop[idx].target.fitness - fit_list[0]) / \
+            Ai = self.max_ea * (fits[idx] - fit_list[0]) / \
                  (np.sum(fit_list) - fit_list[0] + self.EPSILON)
             if si < self.p_a * self.max_sparks:
                 si_ = int(round(self.p_a * self.max_sparks) + 1)
-- 
2.43.0


From fdd9b2383e862c27b9fbc643e0266473ce362542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 177/245] fix: the best orca has the lowest energy whatever the
 direction

---
 mealpy/swarm_based/ORCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 36d1071..5c4a94e 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -74,7 +74,7 @@ class OriginalOrcaOA(Optimizer):
         """
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         # Calculate energy (e_i = F_i - F_s)
-        e = fit_list - self.g_best.target.fitness
+        e = np.abs(fit_list - self.g_best.target.fitness)
         e_min = np.min(e)
         e_max = np.max(e)
 
-- 
2.43.0


From 5d5999268952d3fb740f1af123b31b854e5f9ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 178/245] fix: HCO moves by the same velocity whatever the
 direction

---
 mealpy/human_based/HCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/HCO.py b/mealpy/human_based/HCO.py
index 891c8f7..1213242 100644
--- a/mealpy/human_based/HCO.py
+++ b/mealpy/human_based/HCO.py
@@ -133,7 +133,7 @@ class OriginalHCO(Optimizer):
         RR = (self.g_best.target.fitness - fits) ** 2
         rr = (fit_mean - fits) ** 2
         ll = RR - rr
-        LL = (self.g_best.target.fitness - fit_mean)
+        LL = (self.g_best.target.fitness - fit_mean) * (1 if self.problem.minmax == "min" else -1)
         VV = lamda * (ll / (4 * neu * LL))
         pop_new = []
         for idx in range(0, self.pop_size):
-- 
2.43.0


From a6cf017e2592bc0955665504a28ae70457526a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 179/245] fix: C_PSO slows its better particles down whatever
 the direction

---
 mealpy/swarm_based/PSO.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index 5b95113..38f4ea6 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -600,12 +600,12 @@ class C_PSO(P_PSO):
         self.dyn_lb = self.problem.lb.copy()
         self.dyn_ub = self.problem.ub.copy()
 
-    def get_weights__(self, fit, fit_avg, fit_min):
-        temp1 = self.w_min + (self.w_max - self.w_min) * (fit - fit_min) / (fit_avg - fit_min)
+    def get_weights__(self, fit, fit_avg, fit_best):
+        temp1 = self.w_min + (self.w_max - self.w_min) * (fit - fit_best) / (fit_avg - fit_best)
         if self.problem.minmax == "min":
             output = temp1 if fit <= fit_avg else self.w_max
         else:
-            output = self.w_max if fit <= fit_avg else temp1
+            output = temp1 if fit >= fit_avg else self.w_max
         return output
 
     def bounded_solution(self, solution: np.ndarray) -> np.ndarray:
@@ -620,9 +620,9 @@ class C_PSO(P_PSO):
         """
         list_fits = [agent.target.fitness for agent in self.pop]
         fit_avg = np.mean(list_fits)
-        fit_min = np.min(list_fits)
+        fit_best = np.min(list_fits) if self.problem.minmax == "min" else np.max(list_fits)
         for idx in range(self.pop_size):
-            w = self.get_weights__(self.pop[idx].target.fitness, fit_avg, fit_min)
+            w = self.get_weights__(self.pop[idx].target.fitness, fit_avg, fit_best)
             v_new = w * self.pop[idx].velocity + self.c1 * self.generator.random() * (self.pop[idx].local_solution - self.pop[idx].solution) + \
                     self.c2 * self.generator.random() * (self.g_best.solution - self.pop[idx].solution)
             v_new = np.clip(v_new, self.v_min, self.v_max)
-- 
2.43.0


From b46e4b797e4f308b754b2195099cca54a893b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 180/245] fix: the weakest empire of ICA is the worst one
 whatever the direction

---
 mealpy/human_based/ICA.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index a2cf809..32d79c0 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -116,6 +116,8 @@ class OriginalICA(Optimizer):
         self.pop_colonies = [agent.copy() for agent in self.pop[self.empire_count:]]
 
         cost_empires_list = np.array([agent.target.fitness for agent in self.pop_empires])
+        if self.problem.minmax == "max":
+            cost_empires_list = -cost_empires_list
         cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
         prob_empires_list = self.get_power__(cost_empires_list_normalized)
         # Randomly choose colonies to empires
@@ -181,6 +183,8 @@ class OriginalICA(Optimizer):
             fit_empire = self.pop_empires[idx].target.fitness + (self.zeta * np.mean(fit_list) if len(fit_list) > 0 else 0.)
             cost_empires_list.append(fit_empire)
         cost_empires_list = np.array(cost_empires_list)
+        if self.problem.minmax == "max":
+            cost_empires_list = -cost_empires_list
         # Find possession probability of each empire based on its total power
         cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
         prob_empires_list = self.get_power__(cost_empires_list_normalized)  # Vector P
-- 
2.43.0


From 1ebabeddaefe8dac7bb52a7e5d8c32692297fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 181/245] fix: the better half of the bacteria reproduces
 whatever the direction

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index be7639f..11fa3e5 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -133,7 +133,7 @@ class OriginalBFO(Optimizer):
 
     def evaluate__(self, idx, cells):
         cells[idx].interaction = self.attract_repel__(idx, cells)
-        cells[idx].cost = cells[idx].target.fitness + cells[idx].interaction
+        cells[idx].cost = cells[idx].target.fitness * (1 if self.problem.minmax == "min" else -1) + cells[idx].interaction
         return cells
 
     def tumble_cell__(self, cell, step_size):
-- 
2.43.0


From a8bee4e0bcb829dbe3195f4d7f77b2e2e5c7a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 182/245] fix: ASO attracts its atoms to the heaviest ones
 whatever the direction

---
 mealpy/physics_based/ASO.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mealpy/physics_based/ASO.py b/mealpy/physics_based/ASO.py
index efc9c6c..5dcbfcc 100644
--- a/mealpy/physics_based/ASO.py
+++ b/mealpy/physics_based/ASO.py
@@ -115,10 +115,7 @@ class OriginalASO(Optimizer):
         pop = self.update_mass__(population)
         G = np.exp(-20.0 * iteration / self.epoch)
         k_best = int(self.pop_size - (self.pop_size - 2) * (iteration / self.epoch) ** 0.5) + 1
-        if self.problem.minmax == "min":
-            k_best_pop = sorted(pop, key=lambda agent: agent.mass, reverse=True)[:k_best].copy()
-        else:
-            k_best_pop = sorted(pop, key=lambda agent: agent.mass)[:k_best].copy()
+        k_best_pop = sorted(pop, key=lambda agent: agent.mass, reverse=True)[:k_best].copy()
         mk_average = np.mean([agent.solution for agent in k_best_pop])
         acc_list = np.zeros((self.pop_size, self.problem.n_dims))
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 495a58a6cb2455340bb5d0d7b7f6464396d06bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 183/245] fix: the pup of COA replaces the oldest coyote
 whatever the direction

---
 mealpy/swarm_based/COA.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index cc9997d..96be06b 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -133,10 +133,7 @@ class OriginalCOA(Optimizer):
             packs, _ = self.get_sorted_population(self.pop_group[p], self.problem.minmax)
             # Find index of element has fitness larger than new child. If existed an element like that, new child is good
             if self.compare_target(agent.target, packs[-1].target, self.problem.minmax):
-                if self.problem.minmax == "min":
-                    packs = sorted(packs, key=lambda agent: agent.age)
-                else:
-                    packs = sorted(packs, key=lambda agent: agent.age, reverse=True)
+                packs = sorted(packs, key=lambda agent: agent.age)
                 # Replace worst element by new child, New born child with age = 0
                 packs[-1] = agent
                 self.pop_group[p] = [agent.copy() for agent in packs]
-- 
2.43.0


From 47509bbbdb0aa210fa50476a440fd0e9b0fbeb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 184/245] fix: CG_GWO mutates a worse leader more whatever the
 direction

---
 mealpy/swarm_based/GWO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 8f94d89..6f93ced 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1322,7 +1322,7 @@ class CG_GWO(Optimizer):
 
         # Calculate sigma (equation 9)
         if abs(best.target.fitness) > 1e-10:
-            sigma = np.exp((leader.target.fitness - best.target.fitness) / abs(best.target.fitness))
+            sigma = np.exp(abs(leader.target.fitness - best.target.fitness) / abs(best.target.fitness))
         else:
             sigma = 1.0
         # Generate Cauchy and Gaussian random variables
-- 
2.43.0


From 005f72424b5251bb5d081c8465abf425e457b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 185/245] fix: SMO selects its better monkeys whatever the
 direction

---
 mealpy/swarm_based/SMO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index 30fc9fd..155a6b7 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -140,6 +140,8 @@ class DevSMO(Optimizer):
         """Global Leader Phase - selected monkeys update based on global leader"""
         # Calculate selection probabilities
         list_fits = np.array([agent.target.fitness for group in self.groups for agent in group])
+        if self.problem.minmax == "max":
+            list_fits = -list_fits
         # Calculate fitness using formula from paper
         fitness = np.where(list_fits >= 0, 1 / (1 + list_fits), 1 + np.abs(list_fits))
 
-- 
2.43.0


From 107f9c1b67af079b77006037b810e302af3e789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 186/245] fix: the bigger colony of AAA has more energy and
 friction whatever the direction

---
 mealpy/bio_based/AAA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index 527b33c..4bad6a9 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -149,8 +149,8 @@ class OriginalAAA(Optimizer):
         Args:
             epoch: The current iteration
         """
-        energy = self.calculate_energy(self.alg_size_matrix, self.problem.minmax)
-        alg_friction = self.calculate_friction(self.alg_size_matrix, self.problem.minmax)
+        energy = self.calculate_energy(self.alg_size_matrix)
+        alg_friction = self.calculate_friction(self.alg_size_matrix)
         # 1. Helical Movement Phase
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy()
-- 
2.43.0


From 49d876156e38699b75149fb3b2fc3df29ba1010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 187/245] fix: ESOA estimates the descent of the cost whatever
 the direction

---
 mealpy/swarm_based/ESOA.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/ESOA.py b/mealpy/swarm_based/ESOA.py
index 45bf437..734f293 100644
--- a/mealpy/swarm_based/ESOA.py
+++ b/mealpy/swarm_based/ESOA.py
@@ -80,9 +80,12 @@ class OriginalESOA(Optimizer):
             ID_V = 7
         """
         agent.local_target = agent.target.copy()
-        agent.g = (np.sum(agent.weights * agent.solution) - agent.target.fitness) * agent.solution
+        agent.g = (np.sum(agent.weights * agent.solution) - self.get_cost__(agent.target)) * agent.solution
         return agent
 
+    def get_cost__(self, target):
+        return target.fitness if self.problem.minmax == "min" else -target.fitness
+
     def initialize_variables(self):
         self.beta1 = 0.9
         self.beta2 = 0.99
@@ -98,13 +101,13 @@ class OriginalESOA(Optimizer):
         for idx in range(0, self.pop_size):
             # Individual Direction
             p_d = self.pop[idx].local_solution - self.pop[idx].solution
-            p_d = p_d * (self.pop[idx].local_target.fitness - self.pop[idx].target.fitness)
+            p_d = p_d * (self.get_cost__(self.pop[idx].local_target) - self.get_cost__(self.pop[idx].target))
             p_d = p_d / (np.sum(p_d) **2 + self.EPSILON)
             d_p = p_d + self.pop[idx].g
 
             # Group Direction
             c_d = self.g_best.solution - self.pop[idx].solution
-            c_d = c_d * (self.g_best.target.fitness - self.pop[idx].target.fitness)
+            c_d = c_d * (self.get_cost__(self.g_best.target) - self.get_cost__(self.pop[idx].target))
             c_d = c_d / (np.sum(c_d)**2 + self.EPSILON)
             d_g = c_d + self.g_best.g
 
@@ -157,7 +160,7 @@ class OriginalESOA(Optimizer):
                 if self.compare_target(y_best, self.pop[idx].local_target, self.problem.minmax):
                     self.pop[idx].local_solution = x_best
                     self.pop[idx].local_target = y_best
-                    self.pop[idx].g = (np.sum(self.pop[idx].weights * self.pop[idx].solution) - self.pop[idx].target.fitness) * self.pop[idx].solution
+                    self.pop[idx].g = (np.sum(self.pop[idx].weights * self.pop[idx].solution) - self.get_cost__(self.pop[idx].target)) * self.pop[idx].solution
             else:
                 if self.generator.random() < 0.3:
                     self.pop[idx].solution = x_best
-- 
2.43.0


From 91a28dca3bd155c0e5e1f54b878a93ad38b4fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 188/245] fix: DMOA values a sleeping mound whatever the
 direction

---
 mealpy/swarm_based/DMOA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/DMOA.py b/mealpy/swarm_based/DMOA.py
index 57750d5..39ba410 100644
--- a/mealpy/swarm_based/DMOA.py
+++ b/mealpy/swarm_based/DMOA.py
@@ -110,7 +110,8 @@ class OriginalDMOA(Optimizer):
             new_pos = self.correct_solution(new_pos)
             agent = self.generate_agent(new_pos)
             ## Sleeping mould
-            SM[idx] = (agent.target.fitness - self.pop[idx].target.fitness)/np.max([agent.target.fitness, self.pop[idx].target.fitness])
+            costs = np.array([agent.target.fitness, self.pop[idx].target.fitness]) * (1 if self.problem.minmax == "min" else -1)
+            SM[idx] = (costs[0] - costs[1])/np.max(costs)
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
             else:
@@ -224,7 +225,8 @@ class DevDMOA(Optimizer):
             new_pos = self.correct_solution(new_pos)
             agent = self.generate_agent(new_pos)
             ## Sleeping mould
-            SM[idx] = (agent.target.fitness - self.pop[idx].target.fitness) / (np.max([agent.target.fitness, self.pop[idx].target.fitness]) + self.EPSILON)
+            costs = np.array([agent.target.fitness, self.pop[idx].target.fitness]) * (1 if self.problem.minmax == "min" else -1)
+            SM[idx] = (costs[0] - costs[1]) / (np.max(costs) + self.EPSILON)
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
             else:
-- 
2.43.0


From 9c0451507315021a956f10cf39dfbfac80df20e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 189/245] fix: the better business of QSA has the longer queue
 whatever the direction

---
 mealpy/human_based/QSA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/human_based/QSA.py b/mealpy/human_based/QSA.py
index 3b6855f..5e3beb4 100644
--- a/mealpy/human_based/QSA.py
+++ b/mealpy/human_based/QSA.py
@@ -85,7 +85,7 @@ class DevQSA(Optimizer):
 
     def update_business_1__(self, pop=None, current_epoch=None):
         A1, A2, A3 = pop[0].solution, pop[1].solution, pop[2].solution
-        t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
+        t1, t2, t3 = [agent.target.fitness * (1 if self.problem.minmax == "min" else -1) for agent in pop[:3]]
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         case = None
         for idx in range(self.pop_size):
@@ -127,7 +127,7 @@ class DevQSA(Optimizer):
 
     def update_business_2__(self, pop=None):
         A1, A2, A3 = pop[0].solution, pop[1].solution, pop[2].solution
-        t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
+        t1, t2, t3 = [agent.target.fitness * (1 if self.problem.minmax == "min" else -1) for agent in pop[:3]]
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         pr = [idx / self.pop_size for idx in range(1, self.pop_size + 1)]
         if t1 > 1.0e-005:
@@ -321,7 +321,7 @@ class LevyQSA(DevQSA):
 
     def update_business_2__(self, pop=None, current_epoch=None):
         A1, A2, A3 = pop[0].solution, pop[1].solution, pop[2].solution
-        t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
+        t1, t2, t3 = [agent.target.fitness * (1 if self.problem.minmax == "min" else -1) for agent in pop[:3]]
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         pr = [idx / self.pop_size for idx in range(1, self.pop_size + 1)]
         if t1 > 1.0e-6:
-- 
2.43.0


From e631b47699051ee38abd6723e105aa9f0362e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 190/245] fix: INFO weighs its vectors whatever the direction

---
 mealpy/math_based/INFO.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mealpy/math_based/INFO.py b/mealpy/math_based/INFO.py
index b1f3e08..01c91dc 100644
--- a/mealpy/math_based/INFO.py
+++ b/mealpy/math_based/INFO.py
@@ -83,10 +83,11 @@ class OriginalINFO(Optimizer):
             ## Select three random solution
             a, b, c = self.generator.choice(range(0, self.pop_size), 3, replace=False)
             e1 = 1e-25
+            sense = 1 if self.problem.minmax == "min" else -1
             epsilon = e1 * self.generator.random()
-            fit_a = self.pop[a].target.fitness
-            fit_b = self.pop[b].target.fitness
-            fit_c = self.pop[c].target.fitness
+            fit_a = sense * self.pop[a].target.fitness
+            fit_b = sense * self.pop[b].target.fitness
+            fit_c = sense * self.pop[c].target.fitness
             omg1 = np.max([fit_a, fit_b, fit_c])
             MM1 = np.array([fit_a - fit_b, fit_a - fit_c, fit_b - fit_c])
 
@@ -98,9 +99,9 @@ class OriginalINFO(Optimizer):
                 w2 * (self.pop[a].solution - self.pop[c].solution) +
                 w3 * (self.pop[b].solution - self.pop[c].solution)) / (Wt1 + 1) + epsilon
 
-            fit_1 = self.g_best.target.fitness
-            fit_2 = better.target.fitness
-            fit_3 = g_worst.target.fitness
+            fit_1 = sense * self.g_best.target.fitness
+            fit_2 = sense * better.target.fitness
+            fit_3 = sense * g_worst.target.fitness
             omg2 = np.max([fit_1, fit_2, fit_3])
             MM2 = np.array([fit_1 - fit_2, fit_1 - fit_3, fit_2 - fit_3])
             w4 = np.cos(MM2[0] + np.pi) * np.exp(-np.abs(MM2[0] / omg2))        # Eq. (4.7)
-- 
2.43.0


From 6f3c3700a96dbaa046eb4802253317289d0822a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 191/245] fix: KLA moves towards its better agents whatever the
 direction

---
 mealpy/physics_based/KLA.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mealpy/physics_based/KLA.py b/mealpy/physics_based/KLA.py
index b790453..0e1ae77 100644
--- a/mealpy/physics_based/KLA.py
+++ b/mealpy/physics_based/KLA.py
@@ -70,10 +70,11 @@ class OriginalKLA(Optimizer):
             a, b, jj = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=3)
 
             # Get fitness values
-            f_i = self.pop[idx].target.fitness
-            f_a = self.pop[a].target.fitness
-            f_b = self.pop[b].target.fitness
-            f_jj = self.pop[jj].target.fitness
+            sense = 1 if self.problem.minmax == "min" else -1
+            f_i = sense * self.pop[idx].target.fitness
+            f_a = sense * self.pop[a].target.fitness
+            f_b = sense * self.pop[b].target.fitness
+            f_jj = sense * self.pop[jj].target.fitness
 
             # Calculate movement factors (Q parameters)
             q = (f_i - f_jj) / (np.abs(f_i - f_jj) + self.EPSILON)
-- 
2.43.0


From a2e2749697a35da7d0846cba20966edb7b56de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 192/245] fix: the quadratic interpolation of WMQIMRFO looks
 for the optimum whatever the direction

---
 mealpy/swarm_based/MRFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/MRFO.py b/mealpy/swarm_based/MRFO.py
index 1e337ed..b73dcac 100644
--- a/mealpy/swarm_based/MRFO.py
+++ b/mealpy/swarm_based/MRFO.py
@@ -277,7 +277,7 @@ class WMQIMRFO(Optimizer):
                 idx2, idx3 = idx + 1, 0
             if idx == self.pop_size-1:
                 idx2, idx3 = 0, 1
-            f1, f2, f3 = self.pop[idx].target.fitness, self.pop[idx2].target.fitness, self.pop[idx3].target.fitness
+            f1, f2, f3 = [agent.target.fitness * (1 if self.problem.minmax == "min" else -1) for agent in (self.pop[idx], self.pop[idx2], self.pop[idx3])]
             x1, x2, x3 = self.pop[idx].solution, self.pop[idx2].solution, self.pop[idx3].solution
             a = f1 / ((x1 - x2) * (x1 - x3) + self.EPSILON) + f2 / ((x2 - x1) * (x2 - x3) + self.EPSILON) + f3 / ((x3 - x1) * (x3 - x2) + self.EPSILON)
             gx = ((x3 ** 2 - x2 ** 2) * f1 + (x1 ** 2 - x3 ** 2) * f2 + (x2 ** 2 - x1 ** 2) * f3) / (2 * ((x3 - x2) * f1 + (x1 - x3) * f2 + (x2 - x1) * f3) + self.EPSILON)
-- 
2.43.0


From b87365e286c13b71c0c1896b4d408f7d040785a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 193/245] fix: the roulette wheel gives the same chances
 whatever the direction

---
 mealpy/optimizer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index a98699f..cc7786d 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -692,11 +692,9 @@ class Optimizer:
             list_fitness = np.array(list_fitness).ravel()
         if np.ptp(list_fitness) == 0:
             return int(self.generator.integers(0, len(list_fitness)))
-        if np.any(list_fitness < 0):
-            list_fitness = list_fitness - np.min(list_fitness)
-        final_fitness = list_fitness
         if self.problem.minmax == "min":
-            final_fitness = np.max(list_fitness) - list_fitness
+            list_fitness = -list_fitness
+        final_fitness = list_fitness - np.min(list_fitness)
         total = np.sum(final_fitness)
         if not (np.isfinite(total) and total > 0):  # The fitness values give no usable probabilities
             return int(self.generator.integers(0, len(list_fitness)))
-- 
2.43.0


From 313dd986c404fa1f952fcc209846e2795c03bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 194/245] fix: the better bower of SBO is more probable
 whatever the direction

---
 mealpy/bio_based/SBO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index 1a3b4ff..4d8e2fb 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -199,6 +199,8 @@ class OriginalSBO(DevSBO):
         self.sigma = self.psw * (self.problem.ub - self.problem.lb)
         ## Calculate the probability of bowers using Eqs. (1) and (2)
         fx_list = np.array([agent.target.fitness for agent in self.pop])
+        if self.problem.minmax == "max":
+            fx_list = -fx_list
         fit_list = fx_list.copy()
         for idx in range(0, self.pop_size):
             if fx_list[idx] < 0:
-- 
2.43.0


From 37dff9ea615826d7e259785d124432616457c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 195/245] fix: MVO sends objects from its better universes
 whatever the direction

---
 mealpy/physics_based/MVO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/MVO.py b/mealpy/physics_based/MVO.py
index a98c299..ccc898a 100644
--- a/mealpy/physics_based/MVO.py
+++ b/mealpy/physics_based/MVO.py
@@ -201,6 +201,8 @@ class OriginalMVO(DevMVO):
         # Travelling Distance Rate (Formula): Eq. (3.4) in the paper
         tdr = 1 - epoch ** (1.0 / 6) / self.epoch ** (1.0 / 6)
         list_fitness_raw = np.array([item.target.fitness for item in self.pop])
+        if self.problem.minmax == "max":
+            list_fitness_raw = -list_fitness_raw
         maxx = max(list_fitness_raw)
         if maxx > (2 ** 64 - 1):
             list_fitness_normalized = self.generator.uniform(0, 0.1, self.pop_size)
-- 
2.43.0


From 47e226fa436e8538a376aca265213f550f2b1aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 196/245] fix: RIME punctures its worse agents whatever the
 direction

---
 mealpy/physics_based/RIME.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/RIME.py b/mealpy/physics_based/RIME.py
index e6ef59b..d69245b 100644
--- a/mealpy/physics_based/RIME.py
+++ b/mealpy/physics_based/RIME.py
@@ -78,6 +78,8 @@ class OriginalRIME(Optimizer):
         rime_factor = (self.generator.random() - 0.5)*2*np.cos(np.pi*epoch/(self.epoch/10)) * (1 - np.round(epoch*self.sr/self.epoch) / self.sr)
         ee = np.sqrt((epoch+1)/self.epoch)
         fits = np.array([agent.target.fitness for agent in self.pop]).reshape((1, -1))
+        if self.problem.minmax == "max":
+            fits = -fits
         fits_norm = fits / np.linalg.norm(fits, axis=1, keepdims=True)
         LB = self.problem.lb
         UB = self.problem.ub
-- 
2.43.0


From 765c802535f70637e12fd94a6936f1fa7588874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 197/245] fix: BSA splits its birds by their rank whatever the
 direction

---
 mealpy/swarm_based/BSA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/BSA.py b/mealpy/swarm_based/BSA.py
index 8b439e3..3fdc638 100644
--- a/mealpy/swarm_based/BSA.py
+++ b/mealpy/swarm_based/BSA.py
@@ -113,7 +113,8 @@ class OriginalBSA(Optimizer):
             epoch (int): The current iteration
         """
         pos_list = np.array([agent.solution for agent in self.pop])
-        fit_list = np.array([agent.local_target.fitness for agent in self.pop])
+        sense = 1 if self.problem.minmax == "min" else -1
+        fit_list = sense * np.array([agent.local_target.fitness for agent in self.pop])
         pos_mean = np.mean(pos_list, axis=0)
         fit_sum = np.sum(fit_list)
 
@@ -127,7 +128,7 @@ class OriginalBSA(Optimizer):
                             self.generator.uniform() * (self.pop[idx].local_solution - self.pop[idx].solution) + \
                             self.c2 * self.generator.uniform() * (self.g_best.solution - self.pop[idx].solution)
                 else:  # Birds keep vigilance. Eq. 2
-                    A1 = self.a1 * np.exp(-self.pop_size * self.pop[idx].local_target.fitness / (self.EPSILON + fit_sum))
+                    A1 = self.a1 * np.exp(-self.pop_size * sense * self.pop[idx].local_target.fitness / (self.EPSILON + fit_sum))
                     k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
                     t1 = (fit_list[idx] - fit_list[k]) / (abs(fit_list[idx] - fit_list[k]) + self.EPSILON)
                     A2 = self.a2 * np.exp(t1 * self.pop_size * fit_list[k] / (fit_sum + self.EPSILON))
-- 
2.43.0


From 6525d96e813df905ca6b2880cf323ec56b2f61a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 198/245] fix: DMOA chooses its alpha female among the better
 mongooses whatever the direction

---
 mealpy/swarm_based/DMOA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/DMOA.py b/mealpy/swarm_based/DMOA.py
index 39ba410..14f5cd4 100644
--- a/mealpy/swarm_based/DMOA.py
+++ b/mealpy/swarm_based/DMOA.py
@@ -90,7 +90,7 @@ class OriginalDMOA(Optimizer):
         mean_cost = np.mean(fit_list)
         fi = np.exp(-fit_list / mean_cost) if mean_cost != 0 else np.ones(len(self.pop))
         for idx in range(0, self.pop_size):
-            alpha = self.get_index_roulette_wheel_selection(fi)
+            alpha = self.get_index_roulette_wheel_selection(-fi if self.problem.minmax == "min" else fi)
             k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx, alpha}))
             ## Define Vocalization Coeff.
             phi = (self.peep / 2) * self.generator.uniform(-1, 1, self.problem.n_dims)
@@ -203,7 +203,7 @@ class DevDMOA(Optimizer):
 
         ## Foraging led by Alpha female
         for idx in range(0, self.pop_size):
-            alpha = self.get_index_roulette_wheel_selection(fi)
+            alpha = self.get_index_roulette_wheel_selection(-fi if self.problem.minmax == "min" else fi)
             k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx, alpha}))
             ## Define Vocalization Coeff.
             phi = (self.peep / 2) * self.generator.uniform(-1, 1, self.problem.n_dims)
-- 
2.43.0


From f32655702bb79ac8a1b7965993a77e4696b76c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 199/245] fix: SMA weighs its slime whatever the direction

---
 mealpy/bio_based/SMA.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mealpy/bio_based/SMA.py b/mealpy/bio_based/SMA.py
index ced4c9b..0dc443e 100644
--- a/mealpy/bio_based/SMA.py
+++ b/mealpy/bio_based/SMA.py
@@ -69,16 +69,17 @@ class DevSMA(Optimizer):
             epoch (int): The current iteration
         """
         # plus eps to avoid denominator zero
-        ss = self.g_best.target.fitness - self.pop[-1].target.fitness + self.EPSILON
+        sense = 1 if self.problem.minmax == "min" else -1
+        ss = sense * (self.g_best.target.fitness - self.pop[-1].target.fitness) + self.EPSILON
         # calculate the fitness weight of each slime mold
         for idx in range(0, self.pop_size):
             # Eq.(2.5)
             if idx <= int(self.pop_size / 2):
                 self.weights[idx] = 1 + self.generator.uniform(0, 1, self.problem.n_dims) * \
-                                    np.log10((self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
+                                    np.log10(sense * (self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
             else:
                 self.weights[idx] = 1 - self.generator.uniform(0, 1, self.problem.n_dims) * \
-                                    np.log10((self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
+                                    np.log10(sense * (self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
         a = np.arctanh(1 - epoch / self.epoch)  # Eq.(2.4)
         b = 1 - epoch / self.epoch
         pop_new = []
@@ -164,16 +165,17 @@ class OriginalSMA(DevSMA):
             epoch (int): The current iteration
         """
         # plus eps to avoid denominator zero
-        ss = self.g_best.target.fitness - self.pop[-1].target.fitness + self.EPSILON
+        sense = 1 if self.problem.minmax == "min" else -1
+        ss = sense * (self.g_best.target.fitness - self.pop[-1].target.fitness) + self.EPSILON
         # calculate the fitness weight of each slime mold
         for idx in range(0, self.pop_size):
             # Eq.(2.5)
             if idx <= int(self.pop_size / 2):
                 self.weights[idx] = 1 + self.generator.uniform(0, 1, self.problem.n_dims) * \
-                    np.log10((self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
+                    np.log10(sense * (self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
             else:
                 self.weights[idx] = 1 - self.generator.uniform(0, 1, self.problem.n_dims) * \
-                    np.log10((self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
+                    np.log10(sense * (self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
 
         aa = np.arctanh(-(epoch / self.epoch) + 1)  # Eq.(2.4)
         bb = 1 - epoch / self.epoch
-- 
2.43.0


From 6f8340c40bee03ed031ea83668806197b486ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 200/245] fix: GTO moves by the cost whatever the direction

---
 mealpy/swarm_based/GTO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/GTO.py b/mealpy/swarm_based/GTO.py
index 8914a2c..76c6d75 100644
--- a/mealpy/swarm_based/GTO.py
+++ b/mealpy/swarm_based/GTO.py
@@ -130,7 +130,7 @@ class OriginalGTO(Optimizer):
             theta1 = (1.33 / 1.00029) * np.sin(np.radians(theta2))        # calculate theta_1 using (10)
             VD = np.sin(np.radians(theta1)) * dist      # Eq. 11
             # Eq. (13)
-            pos_new = self.pop[idx].solution * np.sin(np.radians(theta2)) * self.pop[idx].target.fitness + VD + H
+            pos_new = self.pop[idx].solution * np.sin(np.radians(theta2)) * self.pop[idx].target.fitness * (1 if self.problem.minmax == "min" else -1) + VD + H
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
@@ -257,7 +257,7 @@ class Matlab102GTO(Optimizer):
             # to be higher than its actual height due to the refraction of the light.
             VD = np.sin(np.radians(theta1)) * dist      # Eq. 11
             # the behavior of giant trevally when chasing and jumping out of the water is mathematically simulated using (13)
-            pos_new = self.pop[idx].solution * np.sin(np.radians(theta2)) * self.pop[idx].target.fitness + VD + H
+            pos_new = self.pop[idx].solution * np.sin(np.radians(theta2)) * self.pop[idx].target.fitness * (1 if self.problem.minmax == "min" else -1) + VD + H
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
@@ -387,7 +387,7 @@ class Matlab101GTO(Optimizer):
                 # to be higher than its actual height due to the refraction of the light.
                 VD = np.sin(np.radians(theta1)) * dist      # Eq. 11
                 # the behavior of giant trevally when chasing and jumping out of the water is mathematically simulated using (13)
-                pos_new = self.pop[idx].solution * np.sin(np.radians(theta2)) * self.pop[idx].target.fitness + VD + H
+                pos_new = self.pop[idx].solution * np.sin(np.radians(theta2)) * self.pop[idx].target.fitness * (1 if self.problem.minmax == "min" else -1) + VD + H
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_empty_agent(pos_new)
                 pop_new.append(agent)
-- 
2.43.0


From adc3b38aa370cb294dd5d1112eaa3b79e4084fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 201/245] fix: APO weighs its neighbours whatever the direction

---
 mealpy/bio_based/APO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/APO.py b/mealpy/bio_based/APO.py
index 332d252..70ce0a3 100644
--- a/mealpy/bio_based/APO.py
+++ b/mealpy/bio_based/APO.py
@@ -116,7 +116,8 @@ class OriginalAPO(Optimizer):
                             km = self.generator.integers(0, idx)
                             kp = self.generator.integers(idx + 1, self.pop_size)
 
-                        wa = np.exp(-np.abs(self.pop[km].target.fitness / (self.pop[kp].target.fitness + self.EPSILON)))
+                        sense = 1 if self.problem.minmax == "min" else -1
+                        wa = np.exp(-np.abs(self.pop[km].target.fitness / (self.pop[kp].target.fitness + sense * self.EPSILON)))
                         epn[kdx] = wa * (self.pop[km].solution - self.pop[kp].solution)
                     pos_new = self.pop[idx].solution + ff * (self.pop[jdx].solution - self.pop[idx].solution + (1 / self.n_pairs) * np.sum(epn, axis=0)) * mf
                 else:
@@ -126,7 +127,8 @@ class OriginalAPO(Optimizer):
                         k = k_idx + 1
                         imk = max(0, idx - k)
                         ipk = min(self.pop_size - 1, idx + k)
-                        wh = np.exp(-np.abs(self.pop[imk].target.fitness / (self.pop[ipk].target.fitness + self.EPSILON)))
+                        sense = 1 if self.problem.minmax == "min" else -1
+                        wh = np.exp(-np.abs(self.pop[imk].target.fitness / (self.pop[ipk].target.fitness + sense * self.EPSILON)))
                         epn[k_idx] = wh * (self.pop[imk].solution - self.pop[ipk].solution)
 
                     flag = 1 if self.generator.random() < 0.5 else -1
-- 
2.43.0


From 6d8fa0a099f9f5f0b6e1c2ece4b61304f83ae3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 202/245] fix: CrayfishOA measures its food whatever the
 direction

---
 mealpy/swarm_based/CrayfishOA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CrayfishOA.py b/mealpy/swarm_based/CrayfishOA.py
index 633bf71..5c92103 100644
--- a/mealpy/swarm_based/CrayfishOA.py
+++ b/mealpy/swarm_based/CrayfishOA.py
@@ -90,7 +90,8 @@ class OriginalCrayfishOA(Optimizer):
             else:
                 # --- Foraging stage ---
                 # Eq.(4) - Add epsilon to prevent division by zero
-                P = 3 * self.generator.random() * self.pop[idx].target.fitness / (self.g_best.target.fitness + self.EPSILON)
+                sense = 1 if self.problem.minmax == "min" else -1
+                P = 3 * self.generator.random() * self.pop[idx].target.fitness / (self.g_best.target.fitness + sense * self.EPSILON)
                 if P > 2:  # The food is too big
                     # Eq.(12) - Update Xfood sequentially
                     Xfood = np.exp(-1 / P) * Xfood
-- 
2.43.0


From e3c9f2e238ee81a06f771ed3f6772d6d448e6344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 203/245] fix: EVO measures its stability level whatever the
 direction

---
 mealpy/physics_based/EVO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/EVO.py b/mealpy/physics_based/EVO.py
index 8aef286..ac8ab93 100644
--- a/mealpy/physics_based/EVO.py
+++ b/mealpy/physics_based/EVO.py
@@ -79,7 +79,8 @@ class OriginalEVO(Optimizer):
             x_avg_team = np.mean(x_team, axis=0)
             x_avg_pop = np.mean(pos_list, axis=0)
             eb = np.mean(fit_list)
-            sl = (fit_list[idx] - self.g_best.target.fitness) / (self.g_worst.target.fitness - self.g_best.target.fitness + self.EPSILON)
+            sense = 1 if self.problem.minmax == "min" else -1
+            sl = sense * (fit_list[idx] - self.g_best.target.fitness) / (sense * (self.g_worst.target.fitness - self.g_best.target.fitness) + self.EPSILON)
 
             pos_new1 = self.pop[idx].solution.copy()
             pos_new2 = self.pop[idx].solution.copy()
-- 
2.43.0


From 358b7a19359404f176711e1386e35f8383729f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 204/245] fix: FDO weighs its bees whatever the direction

---
 mealpy/swarm_based/FDO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FDO.py b/mealpy/swarm_based/FDO.py
index 354d442..f15adb4 100644
--- a/mealpy/swarm_based/FDO.py
+++ b/mealpy/swarm_based/FDO.py
@@ -90,7 +90,7 @@ class OriginalFDO(Optimizer):
                 if best_fit > (0.05 * current_fit):
                     return 0.2
                 else:
-                    return weight_factor - best_fit / current_fit
+                    return best_fit / current_fit - weight_factor
 
     def get_into_levy_bound(self, pos_new):
         """
-- 
2.43.0


From 07b61cf4c642e62c05f5af8edc6dd53a09197e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 205/245] fix: FLA measures its motion step whatever the
 direction

---
 mealpy/physics_based/FLA.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/physics_based/FLA.py b/mealpy/physics_based/FLA.py
index f091f04..eb96822 100644
--- a/mealpy/physics_based/FLA.py
+++ b/mealpy/physics_based/FLA.py
@@ -179,7 +179,7 @@ class OriginalFLA(Optimizer):
                     else:
                         jj = -self.DD*(self.best1.solution - xm1) / tttt
                     drf = np.exp(-jj / tf)
-                    ms = np.exp(-self.best1.target.fitness / (self.pop1[idx].target.fitness + self.EPSILON))
+                    ms = np.exp(-self.best1.target.fitness / (self.pop1[idx].target.fitness + (1 if self.problem.minmax == "min" else -1) * self.EPSILON))
                     qeo = dfg * drf * self.generator.random(self.problem.n_dims)
                     pos_new = self.best1.solution + qeo*self.pop1[idx].solution + qeo *(ms * self.best1.solution - self.pop1[idx].solution)
                     pos_new = self.correct_solution(pos_new)
@@ -193,7 +193,7 @@ class OriginalFLA(Optimizer):
                     else:
                         jj = -self.DD * (self.best2.solution - xm2) / tttt
                     drf = np.exp(-jj / tf)
-                    ms = np.exp(-self.best2.target.fitness / (self.pop2[idx].target.fitness + self.EPSILON))
+                    ms = np.exp(-self.best2.target.fitness / (self.pop2[idx].target.fitness + (1 if self.problem.minmax == "min" else -1) * self.EPSILON))
                     qeo = dfg * drf * self.generator.random(self.problem.n_dims)
                     pos_new = self.best2.solution + qeo * self.pop2[idx].solution + qeo * (ms * self.best2.solution - self.pop2[idx].solution)
                     pos_new = self.correct_solution(pos_new)
@@ -208,7 +208,7 @@ class OriginalFLA(Optimizer):
                     else:
                         jj = -self.DD * (xm - xm1) / tttt
                     drf = np.exp(-jj / tf)
-                    ms = np.exp(-self.fsss / (self.pop1[idx].target.fitness + self.EPSILON))
+                    ms = np.exp(-self.fsss / (self.pop1[idx].target.fitness + (1 if self.problem.minmax == "min" else -1) * self.EPSILON))
                     qg = dfg * drf * self.generator.random(self.problem.n_dims)
                     pos_new = self.g_best.solution + qg * self.pop1[idx].solution + qg * (ms * self.best1.solution - self.pop1[idx].solution)
                     pos_new = self.correct_solution(pos_new)
@@ -222,7 +222,7 @@ class OriginalFLA(Optimizer):
                     else:
                         jj = -self.DD * (xm - xm2) / tttt
                     drf = np.exp(-jj / tf)
-                    ms = np.exp(-self.fsss / (self.pop2[idx].target.fitness + self.EPSILON))
+                    ms = np.exp(-self.fsss / (self.pop2[idx].target.fitness + (1 if self.problem.minmax == "min" else -1) * self.EPSILON))
                     qg = dfg * drf * self.generator.random(self.problem.n_dims)
                     pos_new = self.g_best.solution + qg * self.pop2[idx].solution + qg * (ms * self.g_best.solution - self.pop2[idx].solution)
                     pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From 51623f96e3221626a58ee21e1047b3d781f25488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 206/245] fix: HGSO lets its gases interact whatever the
 direction

---
 mealpy/physics_based/HGSO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/HGSO.py b/mealpy/physics_based/HGSO.py
index 6b787c5..309b0dc 100644
--- a/mealpy/physics_based/HGSO.py
+++ b/mealpy/physics_based/HGSO.py
@@ -108,7 +108,8 @@ class OriginalHGSO(Optimizer):
                 ##### Based on Eq. 8, 9, 10
                 self.H_j = self.H_j * np.exp(-self.C_j * (1.0 / np.exp(-epoch / self.epoch) - 1.0 / self.T0))
                 S_ij = self.K * self.H_j * self.P_ij
-                gama = self.beta * np.exp(- ((self.p_best[idx].target.fitness + self.epsilon) / (self.pop_group[idx][jdx].target.fitness + self.epsilon)))
+                epsilon = self.epsilon if self.problem.minmax == "min" else -self.epsilon
+                gama = self.beta * np.exp(- ((self.p_best[idx].target.fitness + epsilon) / (self.pop_group[idx][jdx].target.fitness + epsilon)))
                 pos_new = self.pop_group[idx][jdx].solution + F * self.generator.uniform() * gama * (self.p_best[idx].solution - self.pop_group[idx][jdx].solution) + \
                        F * self.generator.uniform() * self.alpha * (S_ij * self.g_best.solution - self.pop_group[idx][jdx].solution)
                 pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From 5bf47d3e29991d7a2769aadf2ea8a822c2338855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 207/245] fix: SSpiderO weighs its spiders whatever the
 direction

---
 mealpy/swarm_based/SSpiderO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSpiderO.py b/mealpy/swarm_based/SSpiderO.py
index 8b722fa..77e7c14 100644
--- a/mealpy/swarm_based/SSpiderO.py
+++ b/mealpy/swarm_based/SSpiderO.py
@@ -250,7 +250,7 @@ class OriginalSSpiderO(Optimizer):
             if fit_best == fit_worst:
                 pop[idx].weight = self.generator.uniform(0.2, 0.8)
             else:
-                pop[idx].weight = 0.001 + (pop[idx].target.fitness - fit_worst) / (fit_best - fit_worst + self.EPSILON)
+                pop[idx].weight = 0.001 + (pop[idx].target.fitness - fit_worst) / (fit_best - fit_worst + (self.EPSILON if self.problem.minmax == "max" else -self.EPSILON))
         return pop
 
     def evolve(self, epoch):
-- 
2.43.0


From f9015f3f7e839653a84d3eb2d327cc70ca56bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:15 +0000
Subject: [PATCH 208/245] fix: GJA ranks equally good agents the same way
 whatever the direction

---
 mealpy/swarm_based/GJA.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/mealpy/swarm_based/GJA.py b/mealpy/swarm_based/GJA.py
index 032730c..1c3c002 100644
--- a/mealpy/swarm_based/GJA.py
+++ b/mealpy/swarm_based/GJA.py
@@ -95,10 +95,9 @@ class OriginalGJA(Optimizer):
 
         fitness_values = np.array([agent.target.fitness for agent in self.pop])
 
-        if self.problem.minmax == "min":
-            sorted_idx = np.argsort(fitness_values)
-        else:
-            sorted_idx = np.argsort(fitness_values)[::-1]
+        if self.problem.minmax == "max":
+            fitness_values = -fitness_values
+        sorted_idx = np.argsort(fitness_values)
 
         pop_new = []
         for idx in range(self.pop_size):
@@ -145,10 +144,7 @@ class OriginalGJA(Optimizer):
 
         # Stage 5
         if epoch % 5 == 0:
-            if self.problem.minmax == "min":
-                top5_idx = np.argsort(fitness_values)[:5]
-            else:
-                top5_idx = np.argsort(fitness_values)[-5:][::-1]
+            top5_idx = np.argsort(fitness_values)[:5]
             for idx in top5_idx:
                 pos = self.pop[idx].solution.copy()
                 if not any(np.allclose(pos, m, rtol=1e-10) for m in self.memory):
@@ -157,10 +153,7 @@ class OriginalGJA(Optimizer):
 
             if len(self.memory) > 0:
                 n_worst = max(1, int(np.ceil(0.1 * self.pop_size)))
-                if self.problem.minmax == "min":
-                    worst_idx = np.argsort(fitness_values)[-n_worst:]
-                else:
-                    worst_idx = np.argsort(fitness_values)[:n_worst]
+                worst_idx = np.argsort(fitness_values)[-n_worst:]
                 for idx in worst_idx:
                     mem_idx = self.generator.integers(0, len(self.memory))
                     new_pos = self.correct_solution(self.memory[mem_idx])
-- 
2.43.0


From 2bda4045f96b06beaf8b80c00b52bf4c1cdd776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:15 +0000
Subject: [PATCH 209/245] fix: GCO lets its better cells live longer whatever
 the direction

---
 mealpy/system_based/GCO.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mealpy/system_based/GCO.py b/mealpy/system_based/GCO.py
index 756f6ab..1849bde 100644
--- a/mealpy/system_based/GCO.py
+++ b/mealpy/system_based/GCO.py
@@ -103,9 +103,11 @@ class DevGCO(Optimizer):
         for idx in range(0, self.pop_size):
             self.dyn_list_cell_counter[idx] = 10
             fit_list = np.array([agent.target.fitness for agent in self.pop])
+            if self.problem.minmax == "max":
+                fit_list = -fit_list
             fit_max = np.max(fit_list)
             fit_min = np.min(fit_list)
-            self.dyn_list_cell_counter[idx] += 10 * (self.pop[idx].target.fitness - fit_max) / (fit_min - fit_max + self.EPSILON)
+            self.dyn_list_cell_counter[idx] += 10 * (fit_list[idx] - fit_max) / (fit_min - fit_max + self.EPSILON)
 
 
 class OriginalGCO(DevGCO):
@@ -190,9 +192,9 @@ class OriginalGCO(DevGCO):
         ## Light-zone process   (no needs parallelization)
         self.dyn_list_life_signal -= 10
         fit_list = np.array([agent.target.fitness for agent in self.pop])
+        if self.problem.minmax == "max":
+            fit_list = -fit_list
         fit_max = np.max(fit_list)
         fit_min = np.min(fit_list)
         fit = (fit_list - fit_max) / (fit_min - fit_max + self.EPSILON)
-        if self.problem.minmax != 'min':
-            fit = 1 - fit
         self.dyn_list_life_signal += 10 * fit
-- 
2.43.0


From 56d894110c7ea8b0487f4ff974eac0e1bb7eb8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:15 +0000
Subject: [PATCH 210/245] fix: KOA measures its masses whatever the direction

---
 mealpy/physics_based/KOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/KOA.py b/mealpy/physics_based/KOA.py
index 5eb25c3..43cfdf0 100644
--- a/mealpy/physics_based/KOA.py
+++ b/mealpy/physics_based/KOA.py
@@ -106,7 +106,7 @@ class OriginalKOA(Optimizer):
         fit_deltas = fits - worst_fitness
         sum_fit = np.sum(fit_deltas)
         if np.isclose(sum_fit, 0.0):
-            sum_fit = self.EPSILON
+            sum_fit = self.EPSILON if self.problem.minmax == "min" else -self.EPSILON
         MS = self.generator.random(self.pop_size) * (sun_score - worst_fitness) / sum_fit
         m = fit_deltas / sum_fit
 
-- 
2.43.0


From 7c11d22c618b06a58a0c06c279a74f5744d35adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:15 +0000
Subject: [PATCH 211/245] fix: HGS measures hunger whatever the direction

---
 mealpy/swarm_based/HGS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/HGS.py b/mealpy/swarm_based/HGS.py
index 9321701..dadac18 100644
--- a/mealpy/swarm_based/HGS.py
+++ b/mealpy/swarm_based/HGS.py
@@ -80,8 +80,9 @@ class OriginalHGS(Optimizer):
             r = self.generator.random()
             # space: since we pass lower bound and upper bound as list. Better take the np.mean of them.
             space = np.mean(self.problem.ub - self.problem.lb)
-            H = (pop[idx].target.fitness - g_best.target.fitness) / \
-                (g_worst.target.fitness - g_best.target.fitness + self.EPSILON) * r * 2 * space
+            sense = 1 if self.problem.minmax == "min" else -1
+            H = sense * (pop[idx].target.fitness - g_best.target.fitness) / \
+                (sense * (g_worst.target.fitness - g_best.target.fitness) + self.EPSILON) * r * 2 * space
             if H < self.LH:
                 H = self.LH * (1 + r)
             pop[idx].hunger += H
-- 
2.43.0


From 79cb10e082832ce7f561b33c836c90af30328acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:43 +0000
Subject: [PATCH 212/245] fix: ProbBeesA scores its bees whatever the direction

---
 mealpy/swarm_based/BeesA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index 35dcffe..de07dcf 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -348,6 +348,8 @@ class ProbBeesA(Optimizer):
         """
         # Calculate Scores
         fit_list = np.array([agent.target.fitness for agent in self.pop])
+        if self.problem.minmax == "max":
+            fit_list = -fit_list
         fit_list = 1.0 / (fit_list + self.EPSILON)
         d_fit = fit_list / np.mean(fit_list)
         for idx in range(0, self.pop_size):
-- 
2.43.0


From a878173635510ec3f7c2d54ed94247841f5b7428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:52 +0000
Subject: [PATCH 213/245] fix: a chart is drawn on a figure of its own

---
 mealpy/utils/visualize/linechart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/utils/visualize/linechart.py b/mealpy/utils/visualize/linechart.py
index 5b4536e..9d419f5 100644
--- a/mealpy/utils/visualize/linechart.py
+++ b/mealpy/utils/visualize/linechart.py
@@ -70,6 +70,7 @@ def _draw_line_(data=None, title=None, legend=None, linestyle='-', color='b', x_
                 y_label="Function Value", filename=None, exts=(".png", ".pdf"), verbose=True):
     x = np.arange(0, len(data))
     y = data
+    plt.figure()
     plt.title(title)
     plt.xlabel(x_label)
     plt.ylabel(y_label)
@@ -90,6 +91,7 @@ def _draw_line_(data=None, title=None, legend=None, linestyle='-', color='b', x_
 def _draw_multi_line_(data=None, title=None, list_legends=None, list_styles=None, list_colors=None,
                       x_label="#Iteration", y_label="Function Value", filename=None, exts=(".png", ".pdf"), verbose=True):
     x = np.arange(0, len(data[0]))
+    plt.figure()
     for idx, y in enumerate(data):
         plt.plot(x, y, label=list_legends[idx], markerfacecolor=list_colors[idx], linestyle=list_styles[idx])
 
@@ -190,6 +192,7 @@ def export_trajectory_chart(data=None, n_dimensions=1, title="Trajectory of some
     if list_colors is None:
         list_colors = LIST_COLORS[:len(data)]
 
+    plt.figure()
     if n_dimensions == 1:
         x = np.arange(0, len(data[0]))
         for idx, y in enumerate(data):
-- 
2.43.0


From dc4a334d57b4c0cae8c8d398d0284a146e014bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:52 +0000
Subject: [PATCH 214/245] fix: any number of objectives can be charted

---
 mealpy/utils/visualize/linechart.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/utils/visualize/linechart.py b/mealpy/utils/visualize/linechart.py
index 9d419f5..39f3024 100644
--- a/mealpy/utils/visualize/linechart.py
+++ b/mealpy/utils/visualize/linechart.py
@@ -167,9 +167,9 @@ def export_diversity_chart(data=None, title='Diversity Measurement Chart', list_
                            list_styles=None, list_colors=None, x_label="#Iteration", y_label="Diversity Measurement",
                            filename="diversity_chart", exts=(".png", ".pdf"), verbose=True):
     if list_styles is None:
-        list_styles = LIST_LINESTYLES[:len(data)]
+        list_styles = [LIST_LINESTYLES[idx % len(LIST_LINESTYLES)] for idx in range(len(data))]
     if list_colors is None:
-        list_colors = LIST_COLORS[:len(data)]
+        list_colors = [LIST_COLORS[idx % len(LIST_COLORS)] for idx in range(len(data))]
     _draw_multi_line_(data=data, title=title, list_legends=list_legends, list_styles=list_styles, list_colors=list_colors,
                       x_label=x_label, y_label=y_label, filename=filename, exts=exts, verbose=verbose)
 
@@ -177,9 +177,9 @@ def export_diversity_chart(data=None, title='Diversity Measurement Chart', list_
 def export_objectives_chart(data=None, title="Objectives chart", list_legends=None, list_styles=None, list_colors=None,
             x_label="#Iteration", y_labels=None, filename="Objective-chart", exts=(".png", ".pdf"), verbose=True):
     if list_styles is None:
-        list_styles = LIST_LINESTYLES[:len(data)]
+        list_styles = [LIST_LINESTYLES[idx % len(LIST_LINESTYLES)] for idx in range(len(data))]
     if list_colors is None:
-        list_colors = LIST_COLORS[:len(data)]
+        list_colors = [LIST_COLORS[idx % len(LIST_COLORS)] for idx in range(len(data))]
     _draw_multi_subplots_in_same_figure_(data=data, title=title, list_legends=list_legends, list_styles=list_styles, list_colors=list_colors,
                                      x_label=x_label, y_labels=y_labels, filename=filename, exts=exts, verbose=verbose)
 
@@ -188,9 +188,9 @@ def export_trajectory_chart(data=None, n_dimensions=1, title="Trajectory of some
                                  list_styles=None, list_colors=None, x_label="#Iteration", y_label="X1",
                                  filename="1d_trajectory", exts=(".png", ".pdf"), verbose=True):
     if list_styles is None:
-        list_styles = LIST_LINESTYLES[:len(data)]
+        list_styles = [LIST_LINESTYLES[idx % len(LIST_LINESTYLES)] for idx in range(len(data))]
     if list_colors is None:
-        list_colors = LIST_COLORS[:len(data)]
+        list_colors = [LIST_COLORS[idx % len(LIST_COLORS)] for idx in range(len(data))]
 
     plt.figure()
     if n_dimensions == 1:
-- 
2.43.0


From 7532932776423f674d383c5b8ceb8693f28cda89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:52 +0000
Subject: [PATCH 215/245] fix: the trajectory chart refuses agents that do not
 live through all epochs

---
 mealpy/utils/history.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/history.py b/mealpy/utils/history.py
index 625aece..24a10da 100644
--- a/mealpy/utils/history.py
+++ b/mealpy/utils/history.py
@@ -177,8 +177,9 @@ class History:
             raise ValueError(f"Trajectory chart for more than 2 dimensions is not supported.")
         if len(list_agent_idx) < 1 or len(list_agent_idx) > 10:
             raise ValueError(f"Trajectory chart for more than 10 agents is not supported.")
-        if list_agent_idx[-1] > len(self.list_population[0]) or list_agent_idx[0] < 1:
-            raise ValueError(f"Can't draw trajectory chart, the index of selected agents should be in range of [1, {len(self.list_population[0])}]")
+        n_agents = min(len(pop) for pop in self.list_population)        # Some optimizers change their population size
+        if list_agent_idx[-1] > n_agents or list_agent_idx[0] < 1:
+            raise ValueError(f"Can't draw trajectory chart, the index of selected agents should be in range of [1, {n_agents}]")
         if selected_dimensions[-1] > len(self.list_population[0][0].solution) or selected_dimensions[0] < 1:
             raise ValueError(f"Can't draw trajectory chart, the index of selected dimensions should be in range of [1, {len(self.list_population[0][0].solution)}]")
 
-- 
2.43.0


From 9860c919a96b4c7727e275e1268a0c783b7c7e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:50 +0000
Subject: [PATCH 216/245] fix: each variable of a problem draws from a stream
 of its own

---
 mealpy/utils/problem.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mealpy/utils/problem.py b/mealpy/utils/problem.py
index d17bbcd..ad2a9c3 100644
--- a/mealpy/utils/problem.py
+++ b/mealpy/utils/problem.py
@@ -66,14 +66,11 @@ class Problem:
 
     def set_bounds(self, bounds):
         if isinstance(bounds, BaseVar):
-            bounds.seed = self.seed
             self._bounds = [bounds, ]
         elif type(bounds) in self.SUPPORTED_ARRAYS:
             self._bounds = []
             for bound in bounds:
-                if isinstance(bound, BaseVar):
-                    bound.seed = self.seed
-                else:
+                if not isinstance(bound, BaseVar):
                     raise ValueError(f"Invalid bounds. All variables in bounds should be an instance of {self.SUPPORTED_VARS}")
                 self._bounds.append(bound)
         else:
@@ -81,11 +78,15 @@ class Problem:
         self.lb = np.concatenate([bound.lb for bound in self._bounds])
         self.ub = np.concatenate([bound.ub for bound in self._bounds])
         self.n_dims = len(self.lb)
+        self.set_seed(self.seed)
 
     def set_seed(self, seed: int = None) -> None:
         self.seed = seed
         for idx in range(len(self._bounds)):
             self._bounds[idx].seed = seed
+            if seed is not None:
+                # A stream for each variable, otherwise variables of the same type (and the optimizer) always draw the same values
+                self._bounds[idx].generator = np.random.default_rng(np.random.SeedSequence(seed, spawn_key=(idx,)))
 
     def obj_func(self, x: np.ndarray) -> Union[List, Tuple, np.ndarray, int, float]:
         """Objective function
-- 
2.43.0


From eadf653949b9fff9a6871752a3533ec990fea950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 217/245] fix: ImprovedLCO evaluates the moves of its second
 half in the parallel modes

---
 mealpy/human_based/LCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/LCO.py b/mealpy/human_based/LCO.py
index fd6c040..61a459b 100644
--- a/mealpy/human_based/LCO.py
+++ b/mealpy/human_based/LCO.py
@@ -303,7 +303,7 @@ class ImprovedLCO(Optimizer):
                 agent.target = self.get_target(pos_new)
                 pop_s2[idx] = self.get_better_agent(pop_s2[idx], agent, self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
-            pop_child2 = self.update_target_for_population(pop_s2)
+            pop_child2 = self.update_target_for_population(pop_child2)
             pop_s2 = self.greedy_selection_population(pop_s2, pop_child2, self.problem.minmax)
         ## Construct a new population
         self.pop = pop_s1 + pop_s2
-- 
2.43.0


From 8384d33fc3b0f3e1e680915680431765b89ac5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 218/245] fix: SFO moves its sardines in the parallel modes too

---
 mealpy/swarm_based/SFO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/SFO.py b/mealpy/swarm_based/SFO.py
index 4f80a8a..a67fe93 100644
--- a/mealpy/swarm_based/SFO.py
+++ b/mealpy/swarm_based/SFO.py
@@ -122,7 +122,7 @@ class OriginalSFO(Optimizer):
                     agent = self.generate_empty_agent(pos_new)
                     if self.mode not in self.AVAILABLE_MODES:
                         agent.target = self.get_target(pos_new)
-                        self.s_pop[idx] = agent
+                    self.s_pop[idx] = agent
         else:
             ### Update the position of all sardine using Eq.(9)
             for idx in range(0, self.s_size):
@@ -131,7 +131,7 @@ class OriginalSFO(Optimizer):
                 agent = self.generate_empty_agent(pos_new)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-                    self.s_pop[idx] = agent
+                self.s_pop[idx] = agent
         ## Recalculate the fitness of all sardine
         self.s_pop = self.update_target_for_population(self.s_pop)
         ## Sort the population of sailfish and sardine (for reducing computational cost)
@@ -245,7 +245,7 @@ class ImprovedSFO(Optimizer):
                 agent = self.generate_empty_agent(pos_new)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-                    self.s_pop[idx] = agent
+                self.s_pop[idx] = agent
         else:
             ### Update the position of all sardine using Eq.(9)
             for idx in range(0, len(self.s_pop)):
@@ -254,7 +254,7 @@ class ImprovedSFO(Optimizer):
                 agent = self.generate_empty_agent(pos_new)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-                    self.s_pop[idx] = agent
+                self.s_pop[idx] = agent
         ## Recalculate the fitness of all sardine
         self.s_pop = self.update_target_for_population(self.s_pop)
         ## Sort the population of sailfish and sardine (for reducing computational cost)
-- 
2.43.0


From 50a405b4c79c24267f8c352f046dbf57afa029f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 219/245] fix: SSDO evaluates its moves in the parallel modes

---
 mealpy/human_based/SSDO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/SSDO.py b/mealpy/human_based/SSDO.py
index 7f0785d..9d27a43 100644
--- a/mealpy/human_based/SSDO.py
+++ b/mealpy/human_based/SSDO.py
@@ -89,14 +89,16 @@ class OriginalSSDO(Optimizer):
                 vel_new = c * np.cos(r1) * (self.pop[i].local_solution - self.pop[i].solution) + (2-c)*np.cos(r1) * (pos_mean - self.pop[i].solution)
             pop_new[i].velocity = vel_new
         ## Reproduction
+        pop_child = []
         for idx in range(0, self.pop_size):
             pos_new = self.generator.normal(0, 1, self.problem.n_dims) * pop_new[idx].solution + self.generator.random() * pop_new[idx].velocity
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
             agent.local_solution = self.pop[idx].solution.copy()
+            pop_child.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(agent, pop_new[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
-            pop_new = self.update_target_for_population(pop_new)
-            self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
+            pop_child = self.update_target_for_population(pop_child)
+            self.pop = self.greedy_selection_population(pop_new, pop_child, self.problem.minmax)
-- 
2.43.0


From f064ea3b5714d3afb45f9c996a0cd6d73a148975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 220/245] fix: SAP_DE agents keep their derived rates in the
 parallel modes

---
 mealpy/evolutionary_based/DE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index fd62bb2..001f016 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -537,9 +537,9 @@ class SAP_DE(Optimizer):
                 mr_new = self.edit_to_range__(mr_new, 0, 1, self.generator.random)
                 agent = self.generate_empty_agent(pos_new)
                 pop.append(agent)
+                agent.update(crossover=cr_new, mutation=mr_new, pop_size=ps_new)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-                    agent.update(crossover=cr_new, mutation=mr_new, pop_size=ps_new)
             else:
                 pop.append(self.pop[idx].copy())
             ## Mutation
@@ -554,9 +554,9 @@ class SAP_DE(Optimizer):
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_empty_agent(pos_new)
                 pop.append(agent)
+                agent.update(crossover=cr_new, mutation=mr_new, pop_size=ps_new)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-                    agent.update(crossover=cr_new, mutation=mr_new, pop_size=ps_new)
         pop = self.update_target_for_population(pop)
         # Calculate new population size
         total = np.sum([pop[idx].pop_size for idx in range(0, self.pop_size)])
-- 
2.43.0


From 22e4849e18c1bcc09de0bf004edd013ccdc15b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 221/245] fix: BSO writes each new individual to the place it
 was made for

---
 mealpy/human_based/BSO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/human_based/BSO.py b/mealpy/human_based/BSO.py
index df4caab..a158760 100644
--- a/mealpy/human_based/BSO.py
+++ b/mealpy/human_based/BSO.py
@@ -215,13 +215,14 @@ class OriginalBSO(ImprovedBSO):
             cluster_id = int(idx / self.m_solution)
             location_id = int(idx % self.m_solution)
             if self.generator.uniform() < self.p2:  # p_6b
+                source_id = cluster_id
                 if self.generator.uniform() < self.p3:  # p_6i
-                    cluster_id = self.generator.integers(0, self.m_clusters)
+                    source_id = self.generator.integers(0, self.m_clusters)
                 if self.generator.uniform() < self.p3:
-                    pos_new = self.centers[cluster_id].solution + epsilon * self.generator.normal(0, 1, self.problem.n_dims)
+                    pos_new = self.centers[source_id].solution + epsilon * self.generator.normal(0, 1, self.problem.n_dims)
                 else:
                     rand_idx = self.generator.integers(0, self.m_solution)
-                    pos_new = self.pop_group[cluster_id][rand_idx].solution + self.generator.normal(0, 1, self.problem.n_dims)
+                    pos_new = self.pop_group[source_id][rand_idx].solution + self.generator.normal(0, 1, self.problem.n_dims)
             else:
                 id1, id2 = self.generator.choice(range(0, self.m_clusters), 2, replace=False)
                 if self.generator.uniform() < self.p4:
-- 
2.43.0


From 2c2a449e4582666cfa35c4078639a8e103241cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 222/245] fix: OrcaPA compares each attack with its own orca in
 the parallel modes

---
 mealpy/swarm_based/ORCA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 5c4a94e..a23aad2 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -244,8 +244,8 @@ class OriginalOrcaPA(Optimizer):
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
             for idx in range(self.pop_size):
-                if self.compare_target(pop_new[-1].target, self.pop[idx].target, self.problem.minmax):
-                    self.pop[idx] = pop_new[-1].copy()
+                if self.compare_target(pop_new[idx].target, self.pop[idx].target, self.problem.minmax):
+                    self.pop[idx] = pop_new[idx].copy()
                 else:
                     flag_attack[idx] = True
 
-- 
2.43.0


From 39dfa9f8535af93497ae72116eded83eaafbfb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 223/245] fix: BSA evaluates the move of its best scrounger

---
 mealpy/swarm_based/BSA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/swarm_based/BSA.py b/mealpy/swarm_based/BSA.py
index 3fdc638..bd8b4ac 100644
--- a/mealpy/swarm_based/BSA.py
+++ b/mealpy/swarm_based/BSA.py
@@ -186,6 +186,7 @@ class OriginalBSA(Optimizer):
                     agent = self.pop[min_idx].copy()
                     x_new = self.pop[min_idx].solution + self.generator.uniform(self.problem.lb, self.problem.ub) * self.pop[min_idx].solution
                     agent.solution = self.correct_solution(x_new)
+                    pop_new[min_idx] = agent
                 for i in range(int(self.pop_size / 2 + 1), self.pop_size):
                     if choose == 3 or min_idx != i:
                         agent = self.pop[i].copy()
-- 
2.43.0


From d0f706b395c6383ca7d6304665374e3e89af28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:08 +0000
Subject: [PATCH 224/245] fix: ImprovedLCO keeps the last of an odd population
 as it is in the parallel modes

---
 mealpy/human_based/LCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/LCO.py b/mealpy/human_based/LCO.py
index 61a459b..91304ad 100644
--- a/mealpy/human_based/LCO.py
+++ b/mealpy/human_based/LCO.py
@@ -304,6 +304,6 @@ class ImprovedLCO(Optimizer):
                 pop_s2[idx] = self.get_better_agent(pop_s2[idx], agent, self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_child2 = self.update_target_for_population(pop_child2)
-            pop_s2 = self.greedy_selection_population(pop_s2, pop_child2, self.problem.minmax)
+            pop_s2[:self.pop_len] = self.greedy_selection_population(pop_s2[:self.pop_len], pop_child2, self.problem.minmax)
         ## Construct a new population
         self.pop = pop_s1 + pop_s2
-- 
2.43.0


From 70e969ce4598d384a5e2a263aebbc94523743e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 225/245] fix: MA mutates with its mutation probability pm, not
 the crossover probability

---
 mealpy/evolutionary_based/MA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/MA.py b/mealpy/evolutionary_based/MA.py
index 496d5b8..ae813a5 100644
--- a/mealpy/evolutionary_based/MA.py
+++ b/mealpy/evolutionary_based/MA.py
@@ -126,7 +126,7 @@ class OriginalMA(Optimizer):
     def point_mutation__(self, bitstring=None):
         child = ""
         for bit in bitstring:
-            if self.generator.uniform() < self.pc:
+            if self.generator.uniform() < self.pm:
                 child += "0" if bit == "1" else "1"
             else:
                 child += bit
-- 
2.43.0


From 5f9420afbb79aa5b9c0037fc84338e3999c0958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 226/245] fix: ArchOA starts with its exploration phase, and c1
 takes effect

---
 mealpy/physics_based/ArchOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ArchOA.py b/mealpy/physics_based/ArchOA.py
index b973604..44fb29a 100644
--- a/mealpy/physics_based/ArchOA.py
+++ b/mealpy/physics_based/ArchOA.py
@@ -102,7 +102,7 @@ class OriginalArchOA(Optimizer):
             epoch (int): The current iteration
         """
         ## Transfer operator Eq. 8
-        tf = np.exp(epoch / self.epoch)
+        tf = np.exp((epoch - self.epoch) / self.epoch)
         ## Density decreasing factor Eq. 9
         ddf = np.exp(1. - epoch / self.epoch) - epoch / self.epoch
         list_acc = []
-- 
2.43.0


From 6ec990cc03f572079d3a7ab34ec412672be46686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 227/245] fix: CleverBookBeesA reduces its patch by
 patch_reduction

---
 mealpy/swarm_based/BeesA.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index de07dcf..d14af21 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -90,6 +90,9 @@ class CleverBookBeesA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "n_elites", "n_others", "patch_size", "patch_reduction", "n_sites", "n_elite_sites"])
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.dyn_patch_size = self.patch_size
+
     def search_neighborhood(self, parent=None, neigh_size=None):
         """
         Search 1 best position in neigh_size position
@@ -98,8 +101,8 @@ class CleverBookBeesA(Optimizer):
         for idx in range(0, neigh_size):
             t1 = self.generator.integers(0, len(parent.solution))
             new_bee = parent.solution.copy()
-            new_bee[t1] = (parent.solution[t1] + self.generator.uniform() * self.patch_size) if self.generator.uniform() < 0.5 \
-                else (parent.solution[t1] - self.generator.uniform() * self.patch_size)
+            new_bee[t1] = (parent.solution[t1] + self.generator.uniform() * self.dyn_patch_size) if self.generator.uniform() < 0.5 \
+                else (parent.solution[t1] - self.generator.uniform() * self.dyn_patch_size)
             pos_new = self.correct_solution(new_bee)
             agent = self.generate_empty_agent(pos_new)
             pop_neigh.append(agent)
@@ -131,6 +134,7 @@ class CleverBookBeesA(Optimizer):
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
+        self.dyn_patch_size *= self.patch_reduction
 
 
 class OriginalBeesA(Optimizer):
-- 
2.43.0


From ca21d67977c36a14156ecbbf821ee1e1169a9315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 228/245] fix: ABFO bacteria gain nutrients over their moves,
 so that they can live on and split

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 11fa3e5..c5156e5 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -291,7 +291,7 @@ class ABFO(Optimizer):
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
-                    agent.nutrients += 1
+                    agent.nutrients = self.pop[idx].nutrients + 1
                     self.pop[idx] = agent
                     # Update personal best
                     if self.compare_target(agent.target, self.pop[idx].local_target, self.problem.minmax):
-- 
2.43.0


From a9f7c0c41172cf1ed13b05a8d7ce914d4bd64131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 229/245] fix: GA mutates with the mutation probability pm
 whatever the kind of mutation

---
 mealpy/evolutionary_based/GA.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 4f9c7ba..afebbfa 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -254,13 +254,16 @@ class BaseGA(Optimizer):
         if self.mutation_multipoints:
             if self.mutation == "swap":
                 for idx in range(self.problem.n_dims):
-                    idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
-                    child[idx], child[idx_swap] = child[idx_swap], child[idx]
-                    return child
+                    if self.generator.random() < self.pm:
+                        idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
+                        child[idx], child[idx_swap] = child[idx_swap], child[idx]
+                return child
             else:       # "flip"
                 mutation_child = self.problem.generate_solution()
                 flag_child = self.generator.uniform(0, 1, self.problem.n_dims) < self.pm
                 return np.where(flag_child, mutation_child, child)
+        elif self.generator.random() >= self.pm:
+            return child
         else:
             if self.mutation == "swap":
                 idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
@@ -435,6 +438,8 @@ class SingleGA(BaseGA):
         """
         if self.mutation != "flip" and self.problem.n_dims < 2:
             return child        # Nothing to exchange in one dimension
+        if self.generator.random() >= self.pm:
+            return child
         if self.mutation == "swap":
             idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
             child[idx1], child[idx2] = child[idx2], child[idx1]
@@ -693,9 +698,10 @@ class MultiGA(BaseGA):
             return child        # Nothing to exchange in one dimension
         if self.mutation == "swap":
             for idx in range(self.problem.n_dims):
-                idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
-                child[idx], child[idx_swap] = child[idx_swap], child[idx]
-                return child
+                if self.generator.random() < self.pm:
+                    idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
+                    child[idx], child[idx_swap] = child[idx_swap], child[idx]
+            return child
         else:       # "flip"
             mutation_child = self.problem.generate_solution()
             flag_child = self.generator.uniform(0, 1, self.problem.n_dims) < self.pm
-- 
2.43.0


From 01a774bb428d5004d6c0d0325325d5263293b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 230/245] fix: BA moves by the velocity its pulse frequency
 leads to

---
 mealpy/swarm_based/BA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BA.py b/mealpy/swarm_based/BA.py
index 77646a1..4859f79 100644
--- a/mealpy/swarm_based/BA.py
+++ b/mealpy/swarm_based/BA.py
@@ -101,7 +101,7 @@ class OriginalBA(Optimizer):
         for idx in range(0, self.pop_size):
             agent = self.pop[idx].copy()
             vec = agent.velocity + self.pop[idx].pulse_frequency * (self.pop[idx].solution - self.g_best.solution)
-            x_new = self.pop[idx].solution + agent.velocity
+            x_new = self.pop[idx].solution + vec
             ## Local Search around g_best position
             if self.generator.random() > self.pulse_rate:
                 x_new = self.g_best.solution + 0.001 * self.generator.normal(self.problem.n_dims)
-- 
2.43.0


From c01ffa94c16897b442c895ac35b83ffb249bfca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 231/245] fix: SSpiderA spiders follow the mask and the
 vibration they have just chosen

---
 mealpy/swarm_based/SSpiderA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 23370a4..ed24b1c 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -129,7 +129,7 @@ class DevSSpiderA(Optimizer):
                 agent.target_solution = self.pop[id_best_intensity].target_solution
             if self.generator.uniform() > self.p_c:  ## changing mask
                 agent.mask = np.where(self.generator.uniform(0, 1, self.problem.n_dims) < self.p_m, 0, 1)
-            pos_new = np.where(self.pop[idx].mask == 0, self.pop[idx].target_solution, self.pop[self.generator.integers(0, self.pop_size)].solution)
+            pos_new = np.where(agent.mask == 0, agent.target_solution, self.pop[self.generator.integers(0, self.pop_size)].solution)
             ## Perform random walk
             pos_new = self.pop[idx].solution + self.generator.normal() * (self.pop[idx].solution - self.pop[idx].local_vector) + \
                       (pos_new - self.pop[idx].solution) * self.generator.normal()
@@ -141,6 +141,7 @@ class DevSSpiderA(Optimizer):
         pop_new = self.update_target_for_population(pop_new)
 
         for idx in range(0, self.pop_size):
+            self.pop[idx].mask, self.pop[idx].target_solution = pop_new[idx].mask, pop_new[idx].target_solution
             if self.compare_target(pop_new[idx].target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx].local_vector = pop_new[idx].solution - self.pop[idx].solution
                 self.pop[idx].intensity = np.log(1. / (np.abs(pop_new[idx].target.fitness) + self.EPSILON) + 1)
-- 
2.43.0


From cc2bcd832e55f02b50fe4af6881d109185b97be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:24 +0000
Subject: [PATCH 232/245] fix: ES generates at least one child however small
 lamda and the population are

---
 mealpy/evolutionary_based/ES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/ES.py b/mealpy/evolutionary_based/ES.py
index 169c5f8..1a7a24f 100644
--- a/mealpy/evolutionary_based/ES.py
+++ b/mealpy/evolutionary_based/ES.py
@@ -70,7 +70,7 @@ class OriginalES(Optimizer):
         self.sort_flag = True
     
     def initialize_variables(self):
-        self.n_child = int(self.lamda * self.pop_size)
+        self.n_child = max(1, int(self.lamda * self.pop_size))
         self.distance = 0.05 * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
-- 
2.43.0


From 36b5c7f0bb98b3f90ae03bd108ae4e424c081d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:04 +0000
Subject: [PATCH 233/245] fix: ProbBeesA accepts infinite fitness values

---
 mealpy/swarm_based/BeesA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index d14af21..9f51ebd 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -355,7 +355,9 @@ class ProbBeesA(Optimizer):
         if self.problem.minmax == "max":
             fit_list = -fit_list
         fit_list = 1.0 / (fit_list + self.EPSILON)
-        d_fit = fit_list / np.mean(fit_list)
+        mean_fit = np.mean(fit_list)
+        # Infinite fitness values give zero scores: when there is nothing else, all bees have the same score
+        d_fit = fit_list / mean_fit if mean_fit != 0 else np.ones(self.pop_size)
         for idx in range(0, self.pop_size):
             # Determine Rejection Probability based on Score
             if d_fit[idx] < 0.9:
-- 
2.43.0


From 071053fa23a0f46703b22127c0e634b80768679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:04 +0000
Subject: [PATCH 234/245] fix: FA accepts infinite fitness values

---
 mealpy/swarm_based/FA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FA.py b/mealpy/swarm_based/FA.py
index 155843e..7997c69 100644
--- a/mealpy/swarm_based/FA.py
+++ b/mealpy/swarm_based/FA.py
@@ -97,7 +97,7 @@ class OriginalFA(Optimizer):
                  (self.pop_size * fit_list[-1] - np.sum(fit_list) + self.EPSILON)
             Ai = self.max_ea * (fits[idx] - fit_list[0]) / \
                  (np.sum(fit_list) - fit_list[0] + self.EPSILON)
-            if si < self.p_a * self.max_sparks:
+            if np.isnan(si) or si < self.p_a * self.max_sparks:     # Infinite fitness values give no number of sparks
                 si_ = int(round(self.p_a * self.max_sparks) + 1)
             elif si > self.p_b * self.m_sparks:
                 si_ = int(round(self.p_b * self.max_sparks) + 1)
-- 
2.43.0


From 7b1f1e2ad00ef68b072aefa834d241b366e72866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:04 +0000
Subject: [PATCH 235/245] fix: QSA accepts infinite fitness values

---
 mealpy/human_based/QSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/QSA.py b/mealpy/human_based/QSA.py
index 5e3beb4..3e66768 100644
--- a/mealpy/human_based/QSA.py
+++ b/mealpy/human_based/QSA.py
@@ -72,7 +72,7 @@ class DevQSA(Optimizer):
             + t2 = t2 * 1.0e+100
             + t3 = t3 * 1.0e+100
         """
-        if t1 > 1.0e-6:
+        if 1.0e-6 < t1 < np.inf:      # Infinite fitness values give no proportions
             n1 = (1 / t1) / ((1 / t1) + (1 / t2) + (1 / t3))
             n2 = (1 / t2) / ((1 / t1) + (1 / t2) + (1 / t3))
         else:
-- 
2.43.0


From dfa451a2db03fe8823fb948ceab7486531a6b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:04 +0000
Subject: [PATCH 236/245] fix: WCA accepts infinite fitness values

---
 mealpy/system_based/WCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/system_based/WCA.py b/mealpy/system_based/WCA.py
index e10847b..ffbf535 100644
--- a/mealpy/system_based/WCA.py
+++ b/mealpy/system_based/WCA.py
@@ -97,7 +97,7 @@ class OriginalWCA(Optimizer):
         # Designate streams to rivers and sea
         cost_river_list = np.array([agent.target.fitness for agent in self.pop_best])
         total = np.sum(cost_river_list)
-        ratio_list = np.abs(cost_river_list / total) if total != 0 else np.ones(self.nsr)
+        ratio_list = np.abs(cost_river_list / total) if total != 0 and np.isfinite(total) else np.ones(self.nsr)
         num_child_in_river_list = np.round(ratio_list / np.sum(ratio_list) * n_stream).astype(int)
         if np.sum(num_child_in_river_list) < n_stream:
             num_child_in_river_list[-1] += n_stream - np.sum(num_child_in_river_list)
-- 
2.43.0


From 26b46cb57be8531951bd1558239e2edf9fd8a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:04 +0000
Subject: [PATCH 237/245] fix: SMO doesn't hang on infinite fitness values

---
 mealpy/swarm_based/SMO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index 155a6b7..409ce01 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -146,7 +146,8 @@ class DevSMO(Optimizer):
         fitness = np.where(list_fits >= 0, 1 / (1 + list_fits), 1 + np.abs(list_fits))
 
         max_fitness = np.max(fitness)
-        prob = 0.9 * (fitness / max_fitness) + 0.1
+        # With infinite fitness values the maximum can be zero or infinite, so that it has no ratio to itself
+        prob = 0.9 * np.where(fitness == max_fitness, 1.0, fitness / max_fitness) + 0.1
 
         for group_idx, group in enumerate(self.groups):
             attempts = 0
-- 
2.43.0


From 611ebe326e081fa922a54d69f241471a21ca9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:04 +0000
Subject: [PATCH 238/245] fix: EOA accepts infinite fitness values

---
 mealpy/bio_based/EOA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/bio_based/EOA.py b/mealpy/bio_based/EOA.py
index c61af79..bd49812 100644
--- a/mealpy/bio_based/EOA.py
+++ b/mealpy/bio_based/EOA.py
@@ -121,6 +121,8 @@ class OriginalEOA(Optimizer):
             fits = worst_fit - fit_list + self.EPSILON
         else:
             fits = fit_list - worst_fit + self.EPSILON
+        if not np.all(np.isfinite(fits)):   # Infinite fitness values have no distances: the finite ones are equally likely
+            fits = np.where(np.isfinite(fit_list), 1.0, self.EPSILON)
         prob_selection = fits / np.sum(fits)
         self.dyn_beta = self.gama * self.beta
 
-- 
2.43.0


From f3160d9dd4ba9f9891e5dcc10c4f9a404d5de5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:09 +0000
Subject: [PATCH 239/245] fix: SFO doesn't choose more dimensions than there
 are in long runs

---
 mealpy/swarm_based/SFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SFO.py b/mealpy/swarm_based/SFO.py
index a67fe93..9a398ac 100644
--- a/mealpy/swarm_based/SFO.py
+++ b/mealpy/swarm_based/SFO.py
@@ -109,7 +109,7 @@ class OriginalSFO(Optimizer):
         AP = self.AP * (1. - 2. * epoch * self.epsilon)
         if AP < 0.5:
             alpha = int(self.s_size * np.abs(AP))
-            beta = int(self.problem.n_dims * np.abs(AP))
+            beta = min(int(self.problem.n_dims * np.abs(AP)), self.problem.n_dims)     # |AP| grows beyond 1 in long runs
             ### Random self.generator.choice number of sardines which will be updated their position
             list1 = self.generator.choice(range(0, self.s_size), alpha)
             for idx in range(0, self.s_size):
-- 
2.43.0


From 620256a1c7ac6604e6500d39fa37b56cd18ed028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:09 +0000
Subject: [PATCH 240/245] fix: ILA accepts every documented b_min and b_max

---
 mealpy/human_based/ILA.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/human_based/ILA.py b/mealpy/human_based/ILA.py
index 15d8540..88dc3cb 100644
--- a/mealpy/human_based/ILA.py
+++ b/mealpy/human_based/ILA.py
@@ -161,9 +161,9 @@ class OriginalILA(Optimizer):
             r_p = self.normalize(p_i)
 
             for idx, real_idx in enumerate(group_indices):
-                b_c = self.generator.uniform(self.b_min, self.b_max)
-                b_p = self.generator.uniform(self.b_min, self.b_max)
-                b_d = self.generator.uniform(self.b_min, self.b_max)
+                b_c = self.b_min + (self.b_max - self.b_min) * self.generator.random()
+                b_p = self.b_min + (self.b_max - self.b_min) * self.generator.random()
+                b_d = self.b_min + (self.b_max - self.b_min) * self.generator.random()
 
                 e_i = self.experts[real_idx]
                 e_r = group_experts[self.generator.integers(len(group_experts))]
@@ -219,9 +219,9 @@ class OriginalILA(Optimizer):
         r_p = self.normalize(p_i)
 
         for idx in range(self.pop_size):
-            b_c = self.generator.uniform(self.b_min, self.b_max)
-            b_p = self.generator.uniform(self.b_min, self.b_max)
-            b_d = self.generator.uniform(self.b_min, self.b_max)
+            b_c = self.b_min + (self.b_max - self.b_min) * self.generator.random()
+            b_p = self.b_min + (self.b_max - self.b_min) * self.generator.random()
+            b_d = self.b_min + (self.b_max - self.b_min) * self.generator.random()
 
             e_i = self.experts[idx]
             e_r = self.experts[self.generator.integers(self.pop_size)]
-- 
2.43.0


From 73b3414e5bc81ff23a284ad947366f6edf7b3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:22 +0000
Subject: [PATCH 241/245] fix: IWO accepts infinite fitness values

---
 mealpy/bio_based/IWO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/IWO.py b/mealpy/bio_based/IWO.py
index 016fc89..46dfcfc 100644
--- a/mealpy/bio_based/IWO.py
+++ b/mealpy/bio_based/IWO.py
@@ -90,7 +90,7 @@ class OriginalIWO(Optimizer):
         pop_new = []
         for idx in range(0, self.pop_size):
             temp = best.target.fitness - worst.target.fitness
-            if temp == 0:
+            if temp == 0 or not np.isfinite(temp):      # Equal or infinite fitness values give no ratio
                 ratio = self.generator.random()
             else:
                 ratio = (pop[idx].target.fitness - worst.target.fitness) / temp
-- 
2.43.0


From 47ba48dd3b54cf784a1c26f8d4c9d635933bfb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:22 +0000
Subject: [PATCH 242/245] fix: ICA accepts infinite fitness values

---
 mealpy/human_based/ICA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 32d79c0..6f07f0e 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -100,7 +100,7 @@ class OriginalICA(Optimizer):
     @staticmethod
     def get_power__(cost_list: np.ndarray) -> np.ndarray:
         total = np.sum(cost_list)
-        power = np.abs(cost_list / total) if total != 0 else np.ones(len(cost_list))
+        power = np.abs(cost_list / total) if total != 0 and np.isfinite(total) else np.ones(len(cost_list))
         return power / np.sum(power)
 
     def initialization(self):
-- 
2.43.0


From 6f7103bbdb1bcc1f48e59ede572f0b9cc8894cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:42 +0000
Subject: [PATCH 243/245] fix: early stopping counts epochs whose global best
 stays infinite

---
 mealpy/utils/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/history.py b/mealpy/utils/history.py
index 24a10da..206c4a8 100644
--- a/mealpy/utils/history.py
+++ b/mealpy/utils/history.py
@@ -102,8 +102,8 @@ class History:
     def get_global_repeated_times(self, epsilon: float) -> int:
         count = 0
         for idx in range(0, len(self.list_global_best) - 1):
-            temp = np.abs(self.list_global_best[idx].target.fitness - self.list_global_best[idx + 1].target.fitness)
-            if temp <= epsilon:
+            fit, fit_next = self.list_global_best[idx].target.fitness, self.list_global_best[idx + 1].target.fitness
+            if fit == fit_next or np.abs(fit - fit_next) <= epsilon:    # Equal infinite values have no difference
                 count += 1
             else:
                 count = 0
-- 
2.43.0


From abd26d552dec4c6d546f563230d097df8c542145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:08 +0000
Subject: [PATCH 244/245] fix: CMA_ES keeps its covariance matrix positive
 definite in long runs

---
 mealpy/evolutionary_based/ES.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mealpy/evolutionary_based/ES.py b/mealpy/evolutionary_based/ES.py
index 1a7a24f..2b2e072 100644
--- a/mealpy/evolutionary_based/ES.py
+++ b/mealpy/evolutionary_based/ES.py
@@ -314,11 +314,10 @@ class CMA_ES(Optimizer):
         for idx in range(0, self.mu):
             self.C = self.C + self.cmu * self.w[idx] * np.outer(self.pop[idx].step, self.pop[idx].step)
         # If Covariance Matrix is not Positive Defenite or Near Singular
-        E, V = np.linalg.eig(self.C)
-        E = np.diag(E)
-        if np.any(np.diag(E) < 0):
-            E[E < 0] = 0
-            self.C = V * E / V
+        E, V = np.linalg.eigh(self.C)
+        E_min = max(1e-14 * np.max(E), np.finfo(float).tiny)
+        if np.any(E < E_min):
+            self.C = np.dot(V * np.maximum(E, E_min), V.T)
 
 
 class Simple_CMA_ES(Optimizer):
-- 
2.43.0


From cc15196f278719ca0494aa4c58981bdb1a993db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:22 +0000
Subject: [PATCH 245/245] fix: the Levy flight accepts beta = 0, which
 SquirrelSA documents

---
 mealpy/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index cc7786d..cceac14 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -747,6 +747,8 @@ class Optimizer:
         Returns:
             float, list, np.ndarray: The step size of Levy-flight trajectory
         """
+        if beta == 0:       # The limit of ever longer steps
+            beta = self.EPSILON
         # u and v are two random variables which follow self.generator.normal distribution
         # sigma_u : standard deviation of u
         sigma_u = np.power(mgama(1. + beta) * np.sin(np.pi * beta / 2) / (mgama((1 + beta) / 2.) * beta * np.power(2., (beta - 1) / 2)), 1. / beta)
-- 
2.43.0

