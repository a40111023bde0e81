/* A Bison parser, made by GNU Bison 3.8.2.  */

/* Bison interface for Yacc-like parsers in C

   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2021 Free Software Foundation,
   Inc.

   This program is free software: you can redistribute it and/or modify
   it under the terms of the GNU General Public License as published by
   the Free Software Foundation, either version 3 of the License, or
   (at your option) any later version.

   This program is distributed in the hope that it will be useful,
   but WITHOUT ANY WARRANTY; without even the implied warranty of
   MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
   GNU General Public License for more details.

   You should have received a copy of the GNU General Public License
   along with this program.  If not, see <https://www.gnu.org/licenses/>.  */

/* As a special exception, you may create a larger work that contains
   part or all of the Bison parser skeleton and distribute that work
   under terms of your choice, so long as that work isn't itself a
   parser generator using the skeleton or a modified version thereof
   as a parser skeleton.  Alternatively, if you modify or redistribute
   the parser skeleton itself, you may (at your option) remove this
   special exception, which will cause the skeleton and the resulting
   Bison output files to be licensed under the GNU General Public
   License without this special exception.

   This special exception was added by the Free Software Foundation in
   version 2.2 of Bison.  */

/* DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
   especially those whose name start with YY_ or eckit_cmd__.  They are
   private implementation details that can be changed or removed.  */

#ifndef YY_YY_REPO_BUILD_SRC_ECKIT_CMD_CMDSY_TMP_H_INCLUDED
# define YY_YY_REPO_BUILD_SRC_ECKIT_CMD_CMDSY_TMP_H_INCLUDED
/* Debug traces.  */
#ifndef YYDEBUG
# define YYDEBUG 1
#endif
#if YYDEBUG
extern int eckit_cmd_debug;
#endif

/* Token kinds.  */
#ifndef YYTOKENTYPE
# define YYTOKENTYPE
  enum eckit_cmd_tokentype
  {
    YYEMPTY = -2,
    YYEOF = 0,                     /* "end of file"  */
    YYerror = 256,                 /* error  */
    YYUNDEF = 257,                 /* "invalid token"  */
    STRING = 258,                  /* STRING  */
    OPTION = 259,                  /* OPTION  */
    SHELL = 260,                   /* SHELL  */
    PIPE = 261,                    /* PIPE  */
    OUTPUT = 262,                  /* OUTPUT  */
    OUTAPPEND = 263,               /* OUTAPPEND  */
    NUMB = 264,                    /* NUMB  */
    DAY = 265,                     /* DAY  */
    MONTH = 266,                   /* MONTH  */
    WEEK = 267,                    /* WEEK  */
    HOUR = 268,                    /* HOUR  */
    MINUTE = 269,                  /* MINUTE  */
    SECOND = 270,                  /* SECOND  */
    YEAR = 271,                    /* YEAR  */
    AND = 272,                     /* AND  */
    OR = 273,                      /* OR  */
    LE = 274,                      /* LE  */
    GE = 275,                      /* GE  */
    NE = 276,                      /* NE  */
    NOT = 277,                     /* NOT  */
    IN = 278,                      /* IN  */
    MATCH = 279,                   /* MATCH  */
    HEXABYTE = 280,                /* HEXABYTE  */
    PETABYTE = 281,                /* PETABYTE  */
    TERABYTE = 282,                /* TERABYTE  */
    GIGABYTE = 283,                /* GIGABYTE  */
    MEGABYTE = 284,                /* MEGABYTE  */
    KILOBYTE = 285,                /* KILOBYTE  */
    BYTE = 286                     /* BYTE  */
  };
  typedef enum eckit_cmd_tokentype eckit_cmd_token_kind_t;
#endif

/* Value type.  */


extern YYSTYPE eckit_cmd_lval;


int eckit_cmd_parse (void);


#endif /* !YY_YY_REPO_BUILD_SRC_ECKIT_CMD_CMDSY_TMP_H_INCLUDED  */
