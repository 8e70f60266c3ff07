package com.example.rust; class Cfg { static final boolean NULLS = true; }
