package checks

// corpus is a set of rich, mostly well-formed texts: each touches a different
// part of the reader, the layout rules or the transforms. They are the start
// states of the edit spaces.
var corpus = []string{
	"",
	"a",
	"(def x 1)",
	"(defn foo [x y]\n  (+ x y))\n",
	"(defn foo\n  \"doc\n   more\"\n  [x]\n  x)\n",
	"(defn foo\n  [x] (+ x 1))\n",
	"(defmethod foo\n  :bar\n  [x] 1)\n",
	"(defmacro m \"a\n b\" [& xs] `(do ~@xs ~(first xs) ~x#))\n",
	"(ns foo.bar\n  \"Doc.\n\n     Indented.\"\n  (:require [a.b :as b]\n            [c.d :refer [x y]])\n  (:import java.util.Date (java.io File Reader)))\n",
	"(ns a (:use [b :only [c d]] e [f :as g]) (:require h [i :as j]))\n(c j/k)\n",
	"(ns a (require (z :as y) x) [:import [q.r S] t.U])\n(y/f)",
	"(ns a\n  ;; top\n  (:require\n   ;; above b\n   [b :as bb] ; beside b\n   ;; above a\n   [a :as aa] ; beside a\n   ;; trailing\n   ))\nbb/x aa/y\n",
	"(let [a 1\n      b\n      2]\n  (+ a b))",
	"(for [x xs\n      :let [y\n            (inc x)]\n      :when y]\n  y)",
	"(letfn [(f [x]\n          x)\n        (g [y] (f y))]\n  (g 1))",
	"(deftype T [a]\n  P\n  (m [this]\n    a))",
	"(cond\n  a\n  b\n  :else\n  c)",
	"(condp some [1 2]\n  #{1}\n  :>>\n  inc\n  2\n  3)",
	"(case x\n  1\n  2\n  3)",
	"(-> x\n    (case\n      1\n      2)\n    (assoc :a\n           1))",
	"(cond-> x\n  true\n  (case\n    1\n    2))",
	"(if a\n  b c)",
	"(if-let [x y] z\n  w)",
	"{:a 1\n :b\n 2, :c 3}",
	"#{1 2\n  3}",
	"#(foo %1\n      %2 %&)",
	"#?(:clj\n   1\n   :cljs 2)",
	"[#?@(:clj [1 2]) 3]",
	"#:foo{:a 1\n      :b 2} #::{:c 3} #::x{:d 4}",
	"^:a ^{:b 1} #^String x",
	"#_ a #_(b c) #_ #_ d e f",
	"'a `b ~c ~@d @e #'f #=(g)",
	"\\a \\newline \\space \\u0041 \\o101 \\( \\; \\\" \\\\ \\,",
	"\"str\\\"ing\" \"a\nb\" #\"re\\d\\\"\" \"\\\\\"",
	"1 -2 +3 4.5 6/7 8N 0x1F 1e10 -0.5 ##Inf ##-Inf ##NaN",
	":a :a/b ::c ::d/e a/b . .. a.b/c / nil true false a' a# %",
	"#inst \"2020\" #foo.bar/baz {:a 1} # tag x",
	"#!/usr/bin/env clj\n(a)\n; end",
	"(a ;c1\n b ;c2\n ;c3\n)",
	";; only\n\n\n;; comments\n",
	"(a\n\n\n\n b\n\n)\n\n\n\n(c)\n",
	"(comment (a b) \"c\") '(comment x) [(comment y)]",
	"(a\r\n  b ; c\r\n  \"d\r\ne\")\r\n",
	"(a\t b,c , ,d\f e\v)",
	"(é ü \"ß\" \\λ :ключ ;ñ\n 日本)",
	"(a (b [c {d #{e #(f '(g ~(h @(i)))))}}]))",
	"(a (b [c {d #{e #(f '(g ~(h @(i))))}}]))",
	"(doto (x)\n  (y)\n  #?(:clj (z)))",
	"(this-is-a-very-long-name ;c\n a\n b)",
	"((a b)\n c\n d)",
	"([x]\n y)",
	"(:k m\n    d)",
	"(\"s\"\n 1)",
	"(with-foo [a b]\n  c)",
	"(x/defthing y\n  z)",
	"(ns a (:require [b :as c :refer (d e)]) (:require-macros [f :as g]) (:gen-class :name h) (:load \"i\") (:refer-clojure :exclude [j]))",
	"(GET \"/\" []\n  (b))",
	"(def x\n  \"not a doc\n  string\")",
	"(def x\n  \"a doc\n     string\" ;c\n  1)",
	"(defmulti m \"d\n\n  e\" :k)",
	"(if a ;c\n  b\n  ;d\n  c)",
	"(a #_b\n   c #_ #_ d\n   e)",
}
